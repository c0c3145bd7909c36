"""Abstract interpreter with mutable records, strings, vectors, maps and streams.

Executes a function of the analysed source over a finite abstract domain: strings are constants or opaque tokens, numbers
are constants, everything not modelled is UNK. A branch on UNK is followed both ways (bounded). Functions whose body is
not part of the project, or that a hook stands in for, are modelled by `hooks` (qualified name -> python function).
Standard containers, strings, streams and algorithms have built-in models."""
import functools
import re

from .facts import last_name
from .flow import strip
from .interp import UNK, Obj, Stream, Break, Continue, Return, GiveUp, Unknown


class Thrown(Exception):
    def __init__(self, cls, what=None):
        Exception.__init__(self, cls)
        self.cls, self.what = cls, what


class Ended(Exception):
    """the process ends here (exit, abort)"""

    def __init__(self, code):
        self.code = code


class Rec(object):
    """instance of a class of the analysed program"""

    def __init__(self, q, **at):
        self.q = q
        self.at = at

    def __repr__(self):
        return "<%s %s>" % (self.q, self.at)


class Ref(object):
    def __init__(self, box, key):
        self.box, self.key = box, key

    def get(self):
        b = self.box
        if isinstance(b, list):
            return b[self.key] if 0 <= self.key < len(b) else UNK
        return b.get(self.key, UNK)

    def set(self, v):
        b = self.box
        if isinstance(b, list):
            if 0 <= self.key < len(b):
                b[self.key] = v
        else:
            b[self.key] = v


class Iter(object):
    def __init__(self, seq, pos):
        self.seq, self.pos = seq, pos

    def items(self):
        s = self.seq
        return list(s.items()) if isinstance(s, dict) else s


class Closure(object):
    def __init__(self, fn, cap, this):
        self.fn, self.cap, self.this = fn, cap, this


class Inserter(object):
    def __init__(self, seq):
        self.seq = seq


def copyv(v):
    if isinstance(v, Rec):
        return Rec(v.q, **{k: copyv(x) for k, x in v.at.items()})
    if isinstance(v, list):
        return [copyv(x) for x in v]
    if isinstance(v, dict):
        return {k: copyv(x) for k, x in v.items()}
    if isinstance(v, Iter):
        return Iter(v.seq, v.pos)
    return v


def isref(t):
    t = (t or "").strip()
    return t.endswith("&") or t.endswith("*") or t.endswith("*const")


STR = re.compile(r"^(const )?(class )?std::(__cxx11::)?basic_string<")
VEC = re.compile(r"^(const )?std::(__cxx11::)?(vector|list|deque|set|unordered_set|initializer_list)<")
MAP = re.compile(r"^(const )?std::(map|unordered_map)<")
STREAM = re.compile(r"^(const )?std::(__cxx11::)?basic_(o|i)?stringstream<")


class Machine(object):
    MAXSTEPS = 60000
    MAXLOOP = 40
    strict = False

    def __init__(self, prog, hooks=None, consts=None):
        self.prog = prog
        self.hooks = hooks or {}
        self.consts = consts or {}
        self.callhook = None
        self.decisions, self.pos, self.steps = [], 0, 0
        self.funcs = set()
        self.globals = {}

    # ---- nondeterminism
    def runs(self, start, limit=64):
        """[(outcome, value)] for every combination of undecided branches; outcome is ok / throw / end"""
        out, todo = [], [[]]
        while todo:
            if len(out) >= limit:
                raise GiveUp("too many undecided branches")
            self.decisions = todo.pop()
            self.pos = self.steps = 0
            self.globals = {}
            pre = len(self.decisions)
            try:
                r = ("ok", start(self))
            except Thrown as t:
                r = ("throw", t)
            except Ended as t:
                r = ("end", t.code)
            except (KeyError, TypeError, IndexError, AttributeError, ValueError, RecursionError) as e:
                raise GiveUp("construct not modelled (%s: %s)" % (type(e).__name__, e))
            for i in range(pre, self.pos):
                todo.append(self.decisions[:i] + [not self.decisions[i]])
            out.append(r)
        return out

    def decide(self, v):
        v = self.rv(v)
        if v is UNK or isinstance(v, Unknown):
            if self.pos >= 40:
                raise GiveUp("too many undecided branches on one path")
            if self.pos < len(self.decisions):
                d = self.decisions[self.pos]
            else:
                d = False
                self.decisions.append(d)
            self.pos += 1
            return d
        if v is None:
            return False
        if isinstance(v, (bool, int, float)):
            return bool(v)
        if isinstance(v, Iter):
            return True
        return True

    def rv(self, v):
        while isinstance(v, Ref):
            v = v.get()
        return v

    def tick(self):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise GiveUp("does not end")

    # ---- objects
    def default(self, t):
        t = (t or "").replace("const ", "").strip()
        if STR.match(t):
            return ""
        if VEC.match(t):
            return []
        if MAP.match(t):
            return {}
        if STREAM.match(t):
            return Stream()
        c = self.prog.C.get(t) if hasattr(self.prog, "C") else None
        if c is not None:
            return self.construct(t, None, [])
        return UNK

    def fields(self, q):
        c = self.prog.C.get(q)
        return c["fields"] if c else []

    def construct(self, q, ctor, args, depth=0):
        r = Rec(q)
        for f in self.fields(q):
            r.at[f[0]] = UNK
        if ctor is None:
            cs = [f for f in self.prog.fq(q + "::" + last_name(q)) if len(f.params) == len(args)] if self.prog.C.get(q) else []
            ctor = cs[0] if len(cs) == 1 else None
        if ctor is None or ctor.cfg is None:
            if not args:
                for f in self.fields(q):
                    r.at[f[0]] = self.default(f[1]) if f[1] != q else UNK
            return r
        env = self.frame(ctor, args, r, depth)
        done = set()
        for c in ctor.root.c[:-1]:
            if c.k != "init":
                continue
            nm = c.x[0].split("::")[-1]
            if c.x[0].startswith("<"):
                v = self.val(c.c[0], env, ctor)
                if isinstance(v, Rec):
                    r.at.update(v.at)
                continue
            r.at[nm] = copyv(self.val(c.c[0], env, ctor))
            done.add(nm)
        for f in self.fields(q):
            if f[0] not in done and r.at.get(f[0]) is UNK:
                r.at[f[0]] = self.default(f[1])
        self.body(ctor, env)
        return r

    # ---- calls
    def frame(self, fn, args, this, depth, cap=None):
        if depth > 60:
            raise GiveUp("recursion")
        env = {"this": this, "depth": depth, "cap": cap or {}}
        for i, p in enumerate(fn.params):
            if i < len(args):
                a = args[i]
                if not isref(p[1]):
                    a = copyv(self.rv(a))
                env[("p", i)] = a
        self.funcs.add(fn.key)
        return env

    def body(self, fn, env):
        try:
            self.stmt(fn.body, env, fn)
        except Return as r:
            return r.v
        return UNK

    def call(self, fn, args, this=None, depth=0, cap=None):
        return self.body(fn, self.frame(fn, args, this, depth, cap))

    # ---- statements
    def stmt(self, n, env, fn):
        self.tick()
        k = n.k
        if k == "{":
            for c in n.c:
                self.stmt(c, env, fn)
        elif k == "decl":
            for v in n.c:
                if v.k != "var":
                    continue
                key = ("v", v.x[1])
                if v.c:
                    x = self.ev(v.c[0], env, fn)
                    if isref(v.type):
                        env[key] = x
                    else:
                        x = self.rv(x)
                        env[key] = copyv(x)
                        if x is UNK and strip(v.c[0]).k == "ctor" and not [a for a in strip(v.c[0]).c if a.k != "darg"]:
                            env[key] = self.default(v.type)
                else:
                    env[key] = self.default(v.type)
        elif k == "if":
            for j in (0, 1):
                if n.c[j] is not None and n.c[j].k != "null":
                    self.stmt(n.c[j], env, fn)
            b = n.c[3] if self.decide(self.ev(n.c[2], env, fn)) else n.c[4]
            if b.k != "null":
                self.stmt(b, env, fn)
        elif k in ("for", "while", "do"):
            if k == "for" and n.c[0].k != "null":
                self.stmt(n.c[0], env, fn)
            cond = n.c[2] if k == "for" else n.c[1]
            body = n.c[4] if k == "for" else n.c[2] if k == "while" else n.c[0]
            it = 0
            while True:
                it += 1
                if it > self.MAXLOOP:
                    raise GiveUp("loop")
                if k != "do" and cond.k != "null" and not self.decide(self.ev(cond, env, fn)):
                    break
                try:
                    self.stmt(body, env, fn)
                except Break:
                    break
                except Continue:
                    pass
                if k == "for" and n.c[3].k != "null":
                    self.ev(n.c[3], env, fn)
                if k == "do" and not self.decide(self.ev(cond, env, fn)):
                    break
        elif k == "rfor":
            self.rfor(n, env, fn)
        elif k == "switch":
            for j in (0, 1):
                if n.c[j].k != "null":
                    self.stmt(n.c[j], env, fn)
            self.switch(n, self.val(n.c[2], env, fn), env, fn)
        elif k in ("case", "default"):
            for c in n.c:
                self.stmt(c, env, fn)
        elif k == "break":
            raise Break()
        elif k == "continue":
            raise Continue()
        elif k == "return":
            if n.c and n.c[0].k != "null":
                v = self.ev(n.c[0], env, fn)
                raise Return(v if isref(fn.ret) else copyv(self.rv(v)))
            raise Return(UNK)
        elif k == "try":
            try:
                self.stmt(n.c[0], env, fn)
            except Thrown as t:
                for h in n.c[1:]:
                    if h.k == "catch" and self.catches(h.x[0] if h.x else "", t.cls):
                        if h.x and len(h.x) > 2:
                            env[("v", h.x[2])] = t.what if t.what is not None else UNK
                        old = env.get("exc")
                        env["exc"] = t
                        try:
                            self.stmt(h.c[0], env, fn)
                        finally:
                            env["exc"] = old
                        return
                raise
        elif k == "throw":
            self.throw(n, env, fn)
        elif k in ("null", "nullstmt", ";"):
            pass
        else:
            self.ev(n, env, fn)

    def throw(self, n, env, fn):
        if not n.c or n.c[0].k == "null":
            if env.get("exc") is not None:
                raise env["exc"]
            raise Thrown("?")
        w = self.val(n.c[0], env, fn)
        raise Thrown(n.x[0] if n.x else "?", w)

    def catches(self, t, cls):
        t = re.sub(r"\bconst\b|&", "", t or "").strip()
        if t in ("", "..."):
            return True
        if t == cls:
            return True
        return t in self.ancestors(cls)

    def ancestors(self, cls):
        r = list(self.prog.bases(cls)) if self.prog.C.get(cls) else []
        std = {"std::invalid_argument": ["std::logic_error", "std::exception"], "std::out_of_range": ["std::logic_error", "std::exception"]}
        for x in list(r):
            r += std.get(x, [])
        if any(x.startswith("std::") for x in r):
            r.append("std::exception")
        return r + std.get(cls, [])

    def rfor(self, n, env, fn):
        rng = UNK
        for c in n.c[:-1]:
            if c.k == "decl":
                for v in c.c:
                    if v.k == "var" and v.x[0].startswith("__range") and v.c:
                        rng = self.val(v.c[0], env, fn)
        var = None
        for c in n.c[:-1]:
            if c.k == "decl":
                for v in c.c:
                    if v.k == "var" and not v.x[0].startswith("__"):
                        var = v
        if isinstance(rng, Obj) and "items" in rng.at:
            rng = rng.at["items"]
        if isinstance(rng, dict):
            rng = [Rec("std::pair", first=a, second=b) for a, b in rng.items()]
        if isinstance(rng, str):
            rng = [ord(c) for c in rng]
        if not isinstance(rng, list) or var is None:
            raise GiveUp("range loop over an unknown container at %s" % fn.loc(n))
        for i in range(len(rng)):
            env[("v", var.x[1])] = Ref(rng, i) if isref(var.type) else copyv(rng[i])
            try:
                self.stmt(n.c[-1], env, fn)
            except Break:
                break
            except Continue:
                continue

    def switch(self, n, v, env, fn):
        body = n.c[3]
        seq = body.c if body.k == "{" else [body]
        if not isinstance(v, (int, bool)):
            raise GiveUp("switch on an unknown value at %s" % fn.loc(n))
        start = dflt = None
        for i, s in enumerate(seq):
            l = s
            while l is not None and l.k in ("case", "default"):
                if l.k == "default":
                    dflt = i
                elif l.x[0] == v or (isinstance(l.x[1], int) and l.x[0] <= v <= l.x[1]):
                    start = i
                l = l.c[0] if l.c and l.c[0].k in ("case", "default") else None
            if start is not None:
                break
        start = dflt if start is None else start
        if start is None:
            return
        try:
            for s in seq[start:]:
                self.stmt(s, env, fn)
        except Break:
            pass

    # ---- expressions
    def val(self, n, env, fn):
        return self.rv(self.ev(n, env, fn))

    def ev(self, n, env, fn):
        self.tick()
        k = n.k
        if k in ("icast", "cast", "cleanup", "darg", "mat", "bindtemp", "temp", "paren") and len(n.c) == 1:
            if k in ("icast", "cast") and n.x and n.x[0] == "FloatingToIntegral":
                v = self.val(n.c[0], env, fn)
                return int(v) if isinstance(v, float) else v
            return self.ev(n.c[0], env, fn)
        if k == "int":
            return n.x[0] if isinstance(n.x[0], int) else UNK
        if k in ("float", "flt", "fp"):
            try:
                return float(n.x[0])
            except (TypeError, ValueError):
                return UNK
        if k == "bool":
            return bool(n.x[0])
        if k in ("str", "char"):
            return n.x[0]
        if k == "nullptr":
            return None
        if k == "this":
            return env["this"]
        if k == "ref":
            return self.refer(n, env, fn)
        if k == "mem":
            q = n.x[1] if len(n.x) > 1 and isinstance(n.x[1], str) else n.x[0]
            if q in self.consts:
                return self.consts[q]
            o = self.val(n.c[0], env, fn) if n.c else env["this"]
            if isinstance(o, Iter):
                o = self.deref(o)
            nm = n.x[0].split("::")[-1]
            if isinstance(o, Rec):
                return Ref(o.at, nm)
            if isinstance(o, Obj):
                if nm in o.at:
                    return o.at[nm]
                if nm.lstrip("_") in o.at and not callable(o.at[nm.lstrip("_")]):
                    return o.at[nm.lstrip("_")]
            return UNK
        if k == "un":
            return self.unary(n, env, fn)
        if k == "bin":
            return self.binop(n, env, fn)
        if k == "?:":
            return self.ev(n.c[1] if self.decide(self.ev(n.c[0], env, fn)) else n.c[2], env, fn)
        if k == "idx":
            return self.index(self.val(n.c[0], env, fn), self.val(n.c[1], env, fn))
        if k == "throw":
            self.throw(n, env, fn)
        if k == "ocall":
            return self.ocall(n, env, fn)
        if k in ("call", "mcall"):
            return self.fcall(n, env, fn)
        if k == "ctor":
            return self.ctor(n, env, fn)
        if k == "new":
            if self.callhook is not None:
                r = self.callhook(self, n, env, fn)
                if r is not None:
                    return r[0]
            r = UNK
            for c in n.c:
                r = self.val(c, env, fn)
            return r
        if k == "lambda":
            f = self.prog.F.get(n.x[0])
            if f is None or f.cfg is None:
                return UNK
            cap = {}
            for i, c in enumerate(n.x[1] or []):
                if i < len(n.c):
                    v = self.ev(n.c[i], env, fn)
                    cap[c[0]] = v if len(c) > 1 and c[1] in ("ref", "&", 1) else v
            return Closure(f, cap, env["this"])
        if k == "ilist":
            t = (n.type or "").replace("const ", "")
            vs = [copyv(self.val(c, env, fn)) for c in n.c]
            if self.prog.C.get(t):
                return Rec(t, **{f[0]: v for f, v in zip(self.fields(t), vs)})
            if len(vs) == 1 and STR.match(t) and not t.rstrip().endswith("]"):
                return vs[0]
            return vs
        if k in ("sizeof", "null"):
            return UNK
        for c in n.c:
            if c.k not in ("decl", "{"):
                self.ev(c, env, fn)
        return UNK

    def refer(self, n, env, fn):
        w = n.x[0]
        if w == "e":
            return n.x[3]
        if w == "p":
            key = ("p", n.x[2])
            if key not in env and n.x[1] in env["cap"]:
                return env["cap"][n.x[1]]
            return Ref(env, key)
        if w in ("v", "s"):
            key = ("v", n.x[2])
            if key in env:
                return Ref(env, key)
            if n.x[1] in env["cap"]:
                return env["cap"][n.x[1]]
        for c in n.x[1:]:
            if isinstance(c, str) and c in self.consts:
                return self.consts[c]
        if n.x[1] == "npos" or (isinstance(n.x[2], str) and n.x[2].endswith("::npos")):
            return 18446744073709551615
        if w in ("g", "s"):
            key = (fn.key if w == "s" else "", str(n.x[2] if w == "g" else n.x[1:]))
            return Ref(self.globals, key)
        return Ref(env, ("v", n.x[2])) if w == "v" else UNK

    def deref(self, v):
        if isinstance(v, Iter):
            s = v.items()
            if isinstance(v.seq, dict):
                return Rec("std::pair", first=s[v.pos][0], second=Ref(v.seq, s[v.pos][0])) if v.pos < len(s) else UNK
            if isinstance(s, str):
                return ord(s[v.pos]) if v.pos < len(s) else UNK
            return Ref(s, v.pos) if 0 <= v.pos < len(s) else UNK
        return v

    def unary(self, n, env, fn):
        op = n.x[0]
        if op in ("*", "&"):
            if op == "&":
                s = strip(n.c[0])
                if s.k == "ref" and s.x[0] not in ("v", "p", "s", "g") or s.k == "mem" and not s.c:
                    q = [c for c in s.x if isinstance(c, str) and "::" in c]
                    if q:
                        return Obj("memptr", field=q[-1].split("::")[-1], cmp=q[-1])
            r = self.ev(n.c[0], env, fn)
            if op == "*" and isinstance(self.rv(r), Iter):
                return self.deref(self.rv(r))
            return r
        if op in ("++", "p++", "--", "p--"):
            r = self.ev(n.c[0], env, fn)
            v = self.rv(r)
            d = 1 if "+" in op else -1
            if isinstance(v, Iter):
                nv = Iter(v.seq, v.pos + d)
            elif isinstance(v, (int, float)):
                nv = v + d
            else:
                nv = UNK
            if isinstance(r, Ref):
                self.store(r, nv)
            return v if op.startswith("p") else nv
        v = self.val(n.c[0], env, fn)
        if op == "!":
            return UNK if v is UNK else not self.truth(v)
        if v is UNK or not isinstance(v, (int, float)):
            return UNK
        return {"-": lambda: -v, "+": lambda: v, "~": lambda: ~int(v)}.get(op, lambda: UNK)()

    @staticmethod
    def truth(v):
        if v is None:
            return False
        if isinstance(v, (int, float, bool)):
            return bool(v)
        return True

    def lost(self, n, fn):
        """a store whose target is not modelled"""
        if self.strict:
            raise GiveUp("store into something not modelled at %s" % fn.loc(n))

    def store(self, r, v):
        while isinstance(r.get(), Ref):
            r = r.get()
        r.set(v)

    def index(self, o, i):
        if isinstance(o, Obj) and "elems" in o.at:
            o = o.at["elems"]
        if isinstance(o, Obj) and callable(o.at.get("index")):
            return o.at["index"](i)
        if isinstance(o, list) and isinstance(i, int):
            if 0 <= i < len(o):
                return Ref(o, i)
            raise Thrown("out of bounds")
        if isinstance(o, str) and isinstance(i, int):
            if 0 <= i <= len(o):
                return ord(o[i]) if i < len(o) else 0
            raise Thrown("out of bounds")
        return UNK

    def binop(self, n, env, fn):
        op = n.x[0]
        if op in ("&&", "||"):
            a = self.val(n.c[0], env, fn)
            a = self.decide(a) if a is UNK else self.truth(a)
            if op == "&&" and not a:
                return False
            if op == "||" and a:
                return True
            b = self.val(n.c[1], env, fn)
            return b if b is UNK else self.truth(b)
        if op == "=":
            r = self.ev(n.c[0], env, fn)
            v = self.val(n.c[1], env, fn)
            if isinstance(r, Ref):
                self.store(r, copyv(v))
            else:
                self.lost(n, fn)
            return r
        if op == ",":
            self.ev(n.c[0], env, fn)
            return self.ev(n.c[1], env, fn)
        if op in (".*", "->*"):
            o = self.val(n.c[0], env, fn)
            f = self.val(n.c[1], env, fn)
            if isinstance(o, Rec) and isinstance(f, Obj) and f.kind == "memptr":
                return Ref(o.at, f.at["field"])
            return UNK
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            r = self.ev(n.c[0], env, fn)
            v = self.arith(op[:-1], self.rv(r), self.val(n.c[1], env, fn))
            if isinstance(r, Ref):
                self.store(r, v)
            return v
        return self.arith(op, self.val(n.c[0], env, fn), self.val(n.c[1], env, fn))

    def arith(self, op, x, y):
        if isinstance(x, Iter) and isinstance(y, Iter) and op in ("==", "!="):
            return (x.pos == y.pos) == (op == "==")
        if isinstance(x, Iter) and isinstance(y, int) and op in ("+", "-"):
            return Iter(x.seq, x.pos + (y if op == "+" else -y))
        if isinstance(x, Iter) and isinstance(y, Iter) and op == "-":
            return x.pos - y.pos
        if x is UNK or y is UNK:
            return UNK
        if op in ("==", "!="):
            if isinstance(x, (Obj, Rec)) or isinstance(y, (Obj, Rec)) or x is None or y is None:
                r = x is y
            else:
                r = x == y
            return r == (op == "==")
        if isinstance(x, str) and isinstance(y, str):
            f = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "+": x + y}
            return f.get(op, UNK)
        if not isinstance(x, (int, float)) or not isinstance(y, (int, float)):
            return UNK
        try:
            return {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y, "+": lambda: x + y,
                    "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y,
                    "<<": lambda: x << y, ">>": lambda: x >> y, "%": lambda: x % y,
                    "/": lambda: x // y if isinstance(x, int) and isinstance(y, int) else x / y}[op]()
        except (KeyError, ZeroDivisionError, TypeError):
            return UNK

    def text(self, v, t=None):
        if isinstance(v, bool):
            return "1" if v else "0"
        if isinstance(v, int) and t and re.match(r"^(const )?(unsigned |signed )?char$", t.replace("&", "").strip()):
            return chr(v)
        if isinstance(v, (str, int)):
            return str(v)
        if isinstance(v, float):
            return repr(v)
        if isinstance(v, Obj) and "text" in v.at:
            return v.at["text"]
        return None

    def ocall(self, n, env, fn):
        m = n.mname
        if self.callhook is not None:
            r = self.callhook(self, n, env, fn)
            if r is not None:
                return r[0]
        if m == "operator()" and n.c:
            o = self.val(n.c[0], env, fn)
            if isinstance(o, Closure):
                return self.call(o.fn, [self.ev(a, env, fn) for a in n.c[1:]], o.this, env["depth"] + 1, o.cap)
            if isinstance(o, Rec):
                return self.enter(n, n.c[1:], env, fn, o)
            return UNK
        if len(n.c) == 1:
            r = self.ev(n.c[0], env, fn)
            v = self.rv(r)
            if m in ("operator->", "operator*"):
                return self.deref(v) if isinstance(v, Iter) else r
            if m == "operator!":
                return UNK if v is UNK else not self.truth(v)
        if m in ("operator++", "operator--") and n.c:
            r = self.ev(n.c[0], env, fn)
            v = self.rv(r)
            d = 1 if m == "operator++" else -1
            nv = Iter(v.seq, v.pos + d) if isinstance(v, Iter) else UNK
            if isinstance(r, Ref):
                self.store(r, nv)
            return nv if len(n.c) == 1 else v
        if len(n.c) == 2:
            r = self.ev(n.c[0], env, fn)
            x = self.rv(r)
            if m == "operator<<":
                t = n.c[1].type
                a1 = strip(n.c[1])
                y = self.val(n.c[1], env, fn)
                if isinstance(x, Stream):
                    s = self.text(y, t)
                    if s is None and a1.k == "ref" and a1.x[1] in ("endl", "flush", "ends"):
                        s = "\n" if a1.x[1] == "endl" else ""
                    x.out.append(UNK if s is None else s)
                    return x
                if x is not UNK and not isinstance(x, (Rec, Obj)):
                    return self.arith("<<", x, y)
                return r if x is UNK else self.user(n, env, fn, x)
            if m == "operator[]" and isinstance(x, dict):
                y = self.val(n.c[1], env, fn)
                if y is UNK:
                    return UNK
                if y not in x:
                    x[y] = UNK
                return Ref(x, y)
            if m == "operator=":
                y = self.val(n.c[1], env, fn)
                if isinstance(r, Ref):
                    self.store(r, copyv(y))
                elif isinstance(x, Rec) and isinstance(y, Rec):
                    x.at.clear()
                    x.at.update(copyv(y).at)
                else:
                    self.lost(n, fn)
                return r
            if m == "operator+=":
                y = self.val(n.c[1], env, fn)
                if isinstance(x, str) and isinstance(y, int):
                    y = chr(y)
                if isinstance(r, Ref):
                    self.store(r, x + y if isinstance(x, str) and isinstance(y, str) else self.arith("+", x, y))
                return r
            if isinstance(x, (Rec,)) and m not in ("operator+", ):
                return self.user(n, env, fn, x)
            y = self.val(n.c[1], env, fn)
            if m in ("operator[]", "operator()"):
                return self.index(x, y)
            if m == "operator+" and isinstance(x, str) and isinstance(y, int):
                return x + chr(y)
            if m == "operator+" and isinstance(y, str) and isinstance(x, int):
                return chr(x) + y
            if isinstance(x, Obj) and "cmp" in x.at:
                x = x.at["cmp"]
            if isinstance(y, Obj) and "cmp" in y.at:
                y = y.at["cmp"]
            if m.startswith("operator"):
                return self.arith(m[8:], x, y)
        for c in n.c:
            self.ev(c, env, fn)
        return UNK

    def user(self, n, env, fn, this):
        return self.enter(n, n.c[1:], env, fn, this)

    def isa(self, o, t):
        if isinstance(o, Rec):
            q = o.q
        elif isinstance(o, Obj):
            q = "MiniZinc::" + o.kind
        else:
            return UNK if o is UNK else False
        t = t.split("::")[-1]
        return t in [b.split("::")[-1] for b in self.prog.bases(q)] + [q.split("::")[-1]]

    def ctor(self, n, env, fn):
        a = [c for c in n.c if c.k != "darg"]
        cq = n.cq or ""
        if self.callhook is not None:
            r = self.callhook(self, n, env, fn)
            if r is not None:
                return r[0]
        cls = cq.rsplit("::", 1)[0]
        if STREAM.match(cls):
            s = Stream()
            if a:
                v = self.val(a[0], env, fn)
                if isinstance(v, str):
                    s.out.append(v)
            return s
        if STR.match(cls):
            if not a:
                return ""
            v = self.val(a[0], env, fn)
            if len(a) == 2:
                w = self.val(a[1], env, fn)
                if isinstance(v, int) and isinstance(w, int):
                    return chr(w) * v
                if isinstance(v, Iter) and isinstance(w, Iter) and isinstance(v.seq, str):
                    return v.seq[v.pos:w.pos]
                if isinstance(v, str) and isinstance(w, int):
                    return v[:w]
            if isinstance(v, Obj) and "text" in v.at:
                return v.at["text"]
            return v
        if VEC.match(cls) or MAP.match(cls):
            mp = bool(MAP.match(cls))
            if not a:
                return {} if mp else []
            v = self.val(a[0], env, fn)
            if mp and isinstance(v, list):
                r = {}
                for x in v:
                    if isinstance(x, list) and len(x) == 2:
                        r.setdefault(x[0], x[1])
                    elif isinstance(x, Rec) and "first" in x.at:
                        r.setdefault(x.at["first"], x.at["second"])
                return r
            if len(a) == 2:
                w = self.val(a[1], env, fn)
                if isinstance(v, Iter) and isinstance(w, Iter):
                    return [copyv(x) for x in v.items()[v.pos:w.pos]]
            if isinstance(v, int) and not isinstance(v, bool):
                t = re.match(r"^std::vector<(.*?)(, std::allocator<.*)?>$", cls)
                w = self.val(a[1], env, fn) if len(a) > 1 else None
                return [copyv(w) if len(a) > 1 else self.default(t.group(1)) if t else UNK for _ in range(v)]
            return copyv(v)
        if cls.startswith("std::pair"):
            if len(a) == 2:
                return Rec("std::pair", first=copyv(self.val(a[0], env, fn)), second=copyv(self.val(a[1], env, fn)))
            return copyv(self.val(a[0], env, fn)) if a else UNK
        if self.prog.C.get(cls):
            ts = [t for t in self.prog.targets(n) if t.cfg is not None]
            av = [self.ev(c, env, fn) for c in n.c]
            if ts:
                if len(av) == 1 and isinstance(self.rv(av[0]), Rec) and self.rv(av[0]).q == cls:
                    return copyv(self.rv(av[0]))
                return self.construct(cls, ts[0], av, env["depth"] + 1)
            if len(av) == 1:
                return copyv(self.rv(av[0]))
            if not av:
                return self.construct(cls, None, [])
            return UNK
        if len(a) == 1:
            return self.ev(a[0], env, fn)
        for c in a:
            self.ev(c, env, fn)
        return UNK

    def fcall(self, n, env, fn):
        m = n.mname
        cq = n.cq or ""
        if self.callhook is not None:
            r = self.callhook(self, n, env, fn)
            if r is not None:
                return r[0]
        h = self.hooks.get(cq) or self.hooks.get(re.sub(r"<.*>$", "", cq))
        args = n.args()
        if h is not None:
            recv = self.ev(n.c[0], env, fn) if n.k == "mcall" else None
            return h(self, recv, [self.ev(a, env, fn) for a in args])
        mm = re.search(r"::(isa|cast|dynamicCast|dynCast)<(.*)>$", cq)
        if mm:
            o = self.val(args[0], env, fn) if args else (self.val(n.c[0], env, fn) if n.c else UNK)
            if mm.group(1) == "cast":
                return o
            r = self.isa(o, mm.group(2).strip())
            if mm.group(1) == "isa":
                return r
            return UNK if r is UNK else o if r else None
        if n.k == "mcall":
            r = self.ev(n.c[0], env, fn)
            v = self.rv(r)
            if isinstance(v, Iter) and strip(n.c[0]).k == "ocall":
                v = self.rv(self.deref(v))
            if re.match(r"std::(unique|shared)_ptr<", cq) and m in ("get", "release", "operator bool"):
                return r if m != "operator bool" else (v if v is UNK else v is not None)
            if cq.startswith("std::unique_ptr<") and m == "reset":
                if isinstance(r, Ref):
                    self.store(r, self.val(args[0], env, fn) if args and args[0].k != "darg" else None)
                return UNK
            if isinstance(v, bool) and m == "operator bool":
                return v
            if isinstance(v, Rec):
                if v.q == "std::pair":
                    return UNK
                return self.enter(n, args, env, fn, v)
            if isinstance(v, Obj):
                if m in v.at:
                    x = v.at[m]
                    return x(*[self.val(a, env, fn) for a in args]) if callable(x) else x
                return UNK
            return self.method(n, m, r, v, args, env, fn)
        if args:
            o = self.ev(args[0], env, fn)
            ov = self.rv(o)
            if isinstance(ov, Obj) and m in ov.at and "::" in cq:
                x = ov.at[m]
                return x(*[self.val(a, env, fn) for a in args[1:]]) if callable(x) else x
            if cq.startswith("std::") or m in ("toupper", "tolower", "exit", "abort"):
                return self.algo(n, m, o, args, env, fn)
        if m in ("exit", "abort", "_exit", "quick_exit"):
            raise Ended(UNK)
        return self.enter(n, args, env, fn, None)

    def enter(self, n, args, env, fn, this):
        ts = [t for t in self.prog.targets(n) if t.cfg is not None and t.file and not t.file.startswith("/")]
        av = [self.ev(a, env, fn) if a.k != "darg" or a.c else UNK for a in args]
        if len(ts) > 1 and isinstance(this, Rec):
            own = [t for t in ts if t.cls == this.q]
            for b in self.prog.bases(this.q):
                own = own or [t for t in ts if t.cls == b]
            ts = own
        if len(ts) != 1:
            return UNK
        t = ts[0]
        if this is None and t.cls is not None and not t.static and not t.islambda:
            return UNK
        h = self.hooks.get(t.q)
        if h is not None:
            return h(self, this, av)
        return self.call(t, av, this, env["depth"] + 1)

    # ---- library models
    def pred(self, f, args, env):
        f = self.rv(f)
        if isinstance(f, Closure):
            return self.val_of(self.call(f.fn, args, f.this, env["depth"] + 1, f.cap))
        if isinstance(f, str) and f in ("toupper", "tolower"):
            c = self.rv(args[0])
            return ord(getattr(chr(c), f[2:] if False else ("upper" if f == "toupper" else "lower"))()) if isinstance(c, int) else UNK
        if isinstance(f, tuple) and f[0] == "fn":
            return self.val_of(self.call(f[1], args, None, env["depth"] + 1))
        return UNK

    def apply(self, o, args, env):
        """call operator() of a record"""
        fs = [f for f in self.prog.fq(o.q + "::operator()") if f.cfg is not None]
        if len(fs) != 1:
            return UNK
        return self.rv(self.call(fs[0], args, o, env["depth"] + 1))

    def val_of(self, v):
        return self.rv(v)

    def callee(self, a, env, fn):
        """value of a functional argument"""
        s = strip(a)
        while s.k in ("un", "icast", "cast") and s.c:
            s = strip(s.c[0])
        if s.k == "ref":
            nm = str(s.x[1])
            if nm in ("toupper", "tolower"):
                return nm
            for c in s.x[1:]:
                if isinstance(c, str):
                    fs = [f for f in self.prog.fq(c) if f.cfg is not None]
                    if len(fs) == 1:
                        return ("fn", fs[0])
        return self.ev(a, env, fn)

    def algo(self, n, m, o, args, env, fn):
        ov = self.rv(o)
        if m in ("move", "forward", "addressof", "as_const"):
            return o
        if m in ("toupper", "tolower"):
            return self.pred(m, [ov], env)
        if m in ("back_inserter", "inserter", "front_inserter"):
            return Inserter(ov)
        if m in ("stoi", "stol", "stoll", "stod", "stof"):
            if not isinstance(ov, str):
                return UNK
            mt = re.match(r"\s*[-+]?\d+" if m[2] != "d" and m[2] != "f" else r"\s*[-+]?(\d+(\.\d*)?|\.\d+)([eE][-+]?\d+)?", ov)
            if not mt:
                raise Thrown("std::invalid_argument")
            return int(mt.group(0)) if m in ("stoi", "stol", "stoll") else float(mt.group(0))
        if m == "getline" and len(args) >= 2:
            if not isinstance(ov, Stream) or any(x is UNK for x in ov.out):
                raise GiveUp("getline at %s" % fn.loc(n))
            txt = "".join(ov.out)
            p = getattr(ov, "pos", 0)
            d = "\n"
            if len(args) > 2:
                c = self.val(args[2], env, fn)
                d = chr(c) if isinstance(c, int) else d
            if p >= len(txt):
                return False
            i = txt.find(d, p)
            i = len(txt) if i < 0 else i
            r = self.ev(args[1], env, fn)
            if isinstance(r, Ref):
                self.store(r, txt[p:i])
            ov.pos = i + 1
            return True
        if m == "to_string":
            s = self.text(ov)
            return UNK if s is None else s
        if m in ("min", "max") and len(args) == 2:
            b = self.val(args[1], env, fn)
            if isinstance(ov, (int, float)) and isinstance(b, (int, float)):
                return min(ov, b) if m == "min" else max(ov, b)
            return UNK
        if m == "make_pair":
            return Rec("std::pair", first=copyv(ov), second=copyv(self.val(args[1], env, fn)))
        if m == "swap" and len(args) == 2:
            b = self.ev(args[1], env, fn)
            bv = self.rv(b)
            if isinstance(o, Ref) and isinstance(b, Ref):
                self.store(o, bv)
                self.store(b, ov)
            return UNK
        if m in ("begin", "end", "cbegin", "cend") and isinstance(ov, (list, dict, str)):
            return Iter(ov, 0 if m.endswith("begin") else len(ov))
        if isinstance(ov, Iter) and len(args) >= 2:
            e = self.val(args[1], env, fn)
            if isinstance(e, Iter):
                seq = ov.items()
                part = list(range(ov.pos, e.pos))
                get = (lambda i: Ref(ov.seq, i)) if isinstance(ov.seq, list) else (lambda i: self.rv(self.deref(Iter(ov.seq, i))))
                if m == "find":
                    v = self.val(args[2], env, fn)
                    for i in part:
                        if self.rv(get(i)) is UNK or v is UNK:
                            return UNK
                        if self.decide(self.arith("==", self.rv(get(i)), v)):
                            return Iter(ov.seq, i)
                    return e
                if m == "count":
                    v = self.val(args[2], env, fn)
                    return sum(1 for i in part if self.arith("==", self.rv(get(i)), v) is True)
                if m in ("find_if", "any_of", "all_of", "none_of", "count_if", "for_each"):
                    f = self.callee(args[2], env, fn)
                    res = []
                    for i in part:
                        x = self.pred(f, [get(i)], env)
                        if m == "for_each":
                            continue
                        x = self.decide(x)
                        res.append(x)
                        if m == "find_if" and x:
                            return Iter(ov.seq, i)
                    return {"find_if": lambda: e, "any_of": lambda: any(res), "all_of": lambda: all(res),
                            "none_of": lambda: not any(res), "count_if": lambda: sum(res), "for_each": lambda: UNK}[m]()
                if m in ("copy", "copy_if", "transform", "move"):
                    d = self.val(args[2], env, fn)
                    f = self.callee(args[3], env, fn) if m in ("copy_if", "transform") else None
                    out = []
                    for i in part:
                        if m == "copy_if":
                            if self.decide(self.pred(f, [get(i)], env)):
                                out.append(copyv(self.rv(get(i))))
                        elif m == "transform":
                            out.append(self.pred(f, [get(i)], env))
                        else:
                            out.append(copyv(self.rv(get(i))))
                    if isinstance(d, Inserter):
                        d.seq.extend(out)
                    elif isinstance(d, Iter) and isinstance(d.seq, list):
                        for i, x in enumerate(out):
                            if d.pos + i < len(d.seq):
                                d.seq[d.pos + i] = x
                    elif isinstance(d, Iter) and isinstance(d.seq, str):
                        self.putstr(args[2], d, out, env, fn)
                    else:
                        raise GiveUp("copy into an unknown container at %s" % fn.loc(n))
                    return UNK
                if m in ("sort", "stable_sort") and isinstance(ov.seq, list):
                    f = self.callee(args[2], env, fn) if len(args) > 2 else None

                    def less(a, b):
                        if f is None:
                            x = self.arith("<", a, b)
                        elif isinstance(self.rv(f), Rec):
                            x = self.apply(self.rv(f), [a, b], env)
                        else:
                            x = self.pred(f, [a, b], env)
                        return self.decide(x)
                    ov.seq[ov.pos:e.pos] = sorted(ov.seq[ov.pos:e.pos], key=functools.cmp_to_key(
                        lambda a, b: -1 if less(a, b) else 1 if less(b, a) else 0))
                    return UNK
                if m in ("sort", "stable_sort", "reverse", "unique"):
                    raise GiveUp("%s at %s" % (m, fn.loc(n)))
        for a in args[1:]:
            self.ev(a, env, fn)
        return UNK

    def putstr(self, a, d, out, env, fn):
        """write characters through a string iterator: the string is the receiver of begin()"""
        s = strip(a)
        if s.k == "mcall" and s.c:
            r = self.ev(s.c[0], env, fn)
            if isinstance(r, Ref) and all(isinstance(x, int) for x in out):
                self.store(r, d.seq[:d.pos] + "".join(map(chr, out)) + d.seq[d.pos + len(out):])
                return
        raise GiveUp("characters written through an iterator at %s" % fn.loc(a))

    def method(self, n, m, r, v, args, env, fn):
        A = [self.ev(a, env, fn) for a in args if a.k != "darg"]
        V = [self.rv(a) for a in A]
        if isinstance(v, Stream):
            if m == "str" and not A:
                return UNK if any(x is UNK for x in v.out) else "".join(v.out)
            if m == "str":
                v.out[:] = [V[0]] if isinstance(V[0], str) else [UNK]
                return UNK
            if m in ("put", "write") and A:
                v.out.append(chr(V[0]) if m == "put" and isinstance(V[0], int) else V[0] if isinstance(V[0], str) else UNK)
                return v
            return v if m in ("flush",) else UNK
        if m == "reset" and (n.cq or "").startswith("std::unique_ptr"):
            if isinstance(r, Ref):
                self.store(r, V[0] if V else None)
            return UNK
        if m in ("get", "release") and not A:
            return r
        if isinstance(v, str):
            if m in ("c_str", "str", "data") or m.startswith("operator basic_string"):
                return v
            if m in ("size", "length"):
                return len(v)
            if m == "empty":
                return not v
            if m in ("begin", "cbegin"):
                return Iter(v, 0)
            if m in ("end", "cend"):
                return Iter(v, len(v))
            if m in ("back", "front") and v:
                return ord(v[-1 if m == "back" else 0])
            if m == "at" and isinstance(V[0], int):
                return self.index(v, V[0])
            if any(x is UNK for x in V):
                if m in ("append", "push_back", "erase", "insert", "replace", "clear") and isinstance(r, Ref):
                    self.store(r, UNK)
                return UNK
            npos = 18446744073709551615
            if m in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
                s = chr(V[0]) if isinstance(V[0], int) else V[0]
                p = V[1] if len(V) > 1 else None
                if not isinstance(s, str):
                    return UNK
                if m == "find":
                    i = v.find(s, p or 0)
                elif m == "rfind":
                    i = v.rfind(s) if p is None or p >= npos - 1 else v.rfind(s, 0, p + len(s))
                else:
                    neg = "not" in m
                    idx = [i for i, c in enumerate(v) if (c in s) != neg]
                    if "first" in m:
                        idx = [i for i in idx if i >= (p or 0)]
                        i = idx[0] if idx else -1
                    else:
                        idx = [i for i in idx if p is None or p >= npos or i <= p]
                        i = idx[-1] if idx else -1
                return npos if i < 0 else i
            if m == "substr":
                a = V[0] if V else 0
                b = V[1] if len(V) > 1 else npos
                if a > len(v):
                    raise Thrown("std::out_of_range")
                return v[a:] if b >= npos or b < 0 else v[a:a + b]
            if m == "compare" and len(V) == 1:
                return (v > V[0]) - (v < V[0])
            if m == "compare" and len(V) == 3 and isinstance(V[2], str):
                w = v[V[0]:V[0] + V[1]]
                return (w > V[2]) - (w < V[2])
            if m in ("push_back", "append", "operator+="):
                x = chr(V[0]) if isinstance(V[0], int) and len(V) == 1 else V[0] if isinstance(V[0], str) and len(V) == 1 else None
                if x is None and len(V) == 2 and isinstance(V[0], int) and isinstance(V[1], int):
                    x = chr(V[1]) * V[0]
                if x is None:
                    raise GiveUp("append at %s" % fn.loc(n))
                if isinstance(r, Ref):
                    self.store(r, v + x)
                return r
            if m in ("clear",) and isinstance(r, Ref):
                self.store(r, "")
                return UNK
            if m == "pop_back" and isinstance(r, Ref):
                self.store(r, v[:-1])
                return UNK
            if m == "erase" and isinstance(r, Ref) and V and isinstance(V[0], int):
                b = V[1] if len(V) > 1 else npos
                self.store(r, v[:V[0]] + (v[V[0] + b:] if b < npos else ""))
                return r
            if m in ("reserve", "shrink_to_fit"):
                return UNK
            raise GiveUp("string operation %s at %s" % (m, fn.loc(n)))
        if isinstance(v, list):
            if m in ("size", "length"):
                return len(v)
            if m == "empty":
                return not v
            if m in ("begin", "cbegin"):
                return Iter(v, 0)
            if m in ("end", "cend"):
                return Iter(v, len(v))
            if m in ("at",):
                return self.index(v, V[0])
            if m in ("back", "front"):
                if not v:
                    raise Thrown("out of bounds")
                return Ref(v, len(v) - 1 if m == "back" else 0)
            if m == "push_back":
                v.append(copyv(V[0]))
                return UNK
            if m == "emplace_back":
                v.append(self.emplace(n, A, V, env))
                return Ref(v, len(v) - 1)
            if m == "pop_back":
                if v:
                    v.pop()
                return UNK
            if m == "clear":
                v[:] = []
                return UNK
            if m in ("reserve", "shrink_to_fit"):
                return UNK
            if m == "insert" and len(V) == 3 and isinstance(V[0], Iter) and isinstance(V[1], Iter):
                v[V[0].pos:V[0].pos] = [copyv(x) for x in V[1].items()[V[1].pos:V[2].pos]]
                return UNK
            if m == "insert" and len(V) == 2 and isinstance(V[0], Iter):
                v.insert(V[0].pos, copyv(V[1]))
                return Iter(v, V[0].pos)
            if m == "insert" and len(V) == 1:
                if V[0] not in v:
                    v.append(V[0])
                return UNK
            if m in ("count", "find") and len(V) == 1:
                i = [j for j, x in enumerate(v) if x == V[0]]
                return len(i) if m == "count" else Iter(v, i[0] if i else len(v))
            if m == "resize" and isinstance(V[0], int):
                t = re.match(r"^std::vector<(.*?)(, std::allocator<.*)?>::", n.cq or "")
                while len(v) < V[0]:
                    v.append(copyv(V[1]) if len(V) > 1 else self.default(t.group(1)) if t else UNK)
                del v[V[0]:]
                return UNK
            if m == "erase" and len(V) == 1 and isinstance(V[0], Iter):
                del v[V[0].pos]
                return Iter(v, V[0].pos)
            if m == "operator=":
                v[:] = copyv(V[0])
                return r
            raise GiveUp("container operation %s at %s" % (m, fn.loc(n)))
        if isinstance(v, dict):
            if m == "size":
                return len(v)
            if m == "empty":
                return not v
            if m in ("begin", "cbegin"):
                return Iter(v, 0)
            if m in ("end", "cend"):
                return Iter(v, len(v))
            if m == "find":
                ks = list(v)
                if V[0] is UNK:
                    return UNK
                return Iter(v, ks.index(V[0]) if V[0] in v else len(ks))
            if m == "count":
                return UNK if V[0] is UNK else int(V[0] in v)
            if m == "at":
                if V[0] in v:
                    return Ref(v, V[0])
                raise Thrown("std::out_of_range")
            if m in ("insert", "emplace"):
                if len(V) == 1 and isinstance(V[0], Rec):
                    a, b = V[0].at["first"], V[0].at["second"]
                elif len(V) == 2:
                    a, b = V
                else:
                    raise GiveUp("map insert at %s" % fn.loc(n))
                had = a in v
                if not had:
                    v[a] = copyv(b)
                return Rec("std::pair", first=Iter(v, list(v).index(a)), second=not had)
            if m == "clear":
                v.clear()
                return UNK
            raise GiveUp("map operation %s at %s" % (m, fn.loc(n)))
        return UNK

    def emplace(self, n, A, V, env):
        t = re.match(r"^std::(?:vector|list|deque)<(.*?)(?:, std::allocator<.*)?>::", n.cq or "")
        el = t.group(1) if t else ""
        if self.prog.C.get(el):
            if len(V) == 1 and isinstance(V[0], Rec) and V[0].q == el:
                return copyv(V[0])
            cs = [f for f in self.prog.fq(el + "::" + last_name(el))
                  if len(f.params) >= len(V) and all(p[3] for p in f.params[len(V):])]
            if len(cs) == 1:
                return self.construct(el, cs[0], A, env["depth"] + 1)
            raise GiveUp("emplace of %s" % el)
        if el.startswith("std::pair") and len(V) == 2:
            return Rec("std::pair", first=copyv(V[0]), second=copyv(V[1]))
        if STR.match(el) and len(V) == 2 and isinstance(V[0], str) and isinstance(V[1], int):
            return V[0][:V[1]]
        return copyv(V[0]) if V else self.default(el)
