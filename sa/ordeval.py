"""Finite-domain interpretation of comparison functions: operands are abstract objects whose scalar components are chosen
lazily from small domains, consistently over several comparisons of the same objects."""
import re

from .facts import last_name
from .flow import strip


class GiveUp(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Thrown(Exception):
    pass


class PV(object):
    """component of an abstract object (obj: object number, None for shared state), identified by its access path"""
    __slots__ = ("obj", "sig", "type")

    def __init__(self, obj, sig, type_):
        self.obj, self.sig, self.type = obj, sig, type_ or ""

    def __repr__(self):
        return "<%s:%s>" % (self.obj, self.sig)


class Ref(object):
    __slots__ = ("env", "key")

    def __init__(self, env, key):
        self.env, self.key = env, key


class Lam(object):
    __slots__ = ("fn", "env", "this")

    def __init__(self, fn, env, this):
        self.fn, self.env, self.this = fn, env, this


STR = ("ASTString", "basic_string", "std::string", "char *", "string")
CMPF = {"strcmp": 2, "strncmp": 2, "compare": 2, "strcasecmp": 2, "memcmp": 2}


def norm(t):
    return re.sub(r"\bconst\b|&", "", t or "").strip()


def literal(n):
    n = strip(n)
    while n.k == "un" and n.x[0] == "-" or n.k in ("cast", "icast") and len(n.c) == 1:
        n = strip(n.c[0])
    return n.k in ("int", "bool") or n.k == "ref" and n.x[0] == "e"


class OrdEval(object):
    MAXSTEPS = 6000

    def __init__(self, prog, strings=None, domains=None, opaque=None, look=True, modular=()):
        self.prog = prog
        self.strings = strings or ["", "a", "b"]
        self.fixed = domains or {}
        self.consts = {}              # sig -> constants it is compared with
        self.kinds = {}               # sig -> class names it is tested for
        self.opaque = set(opaque or ())
        self.abs = set()              # components whose value itself matters
        self.assign = {}
        self.dec = []
        self.pos = 0
        self.grown = False
        self.root = None
        self.lookin = look            # look into accessors (otherwise every accessor is a component of its own)
        self.modular = modular        # comparisons judged on their own: opaque here
        self.shared = ("type(@).bt", "type(@)._bt", "bt(type(@))")


    # ---- choices
    def choose(self, dom):
        if len(dom) == 1:
            return dom[0]
        if self.pos >= 60:
            raise GiveUp("too many choices")
        if self.pos < len(self.dec):
            i = self.dec[self.pos][0]
        else:
            i = 0
            self.dec.append([0, len(dom)])
        self.pos += 1
        return dom[i]

    def explore(self, start, limit=20000):
        """yield start()'s result for every consistent choice of component values"""
        self.dec = []
        n = 0
        while True:
            self.pos = 0
            self.assign = {}
            self.steps = 0
            n += 1
            if n > limit:
                raise GiveUp("too many cases")
            try:
                r = start()
            except Thrown:
                r = None
            yield r
            self.dec = self.dec[:self.pos]
            while self.dec and self.dec[-1][0] + 1 >= self.dec[-1][1]:
                self.dec.pop()
            if not self.dec:
                return
            self.dec[-1][0] += 1

    def domain(self, v):
        if v.sig in self.fixed:
            return self.fixed[v.sig]
        t = v.type.replace("const ", "").strip()
        if t in ("bool", "_Bool") or t.startswith("bool"):
            return [False, True]
        if "*" in t and "char" not in t:
            d = ["ptr1", "ptr2"]
            return [None] + d
        if any(s in t for s in STR) and "vector" not in t and "map" not in t:
            return self.strings
        cs = self.consts.get(v.sig, ())
        d = set([0, 1]) | set(cs)
        if cs:
            d.add(max(cs) + 1)
            d = sorted(d)
            return d
        return [0, 1]

    def conc(self, v, rel=False):
        if not isinstance(v, PV):
            return v
        k = (None if v.sig in self.shared else v.obj, v.sig)
        if k not in self.assign:
            d = None
            if not rel:
                self.absolute(v)
            elif v.sig not in self.abs and v.sig not in self.fixed and not self.consts.get(v.sig) and self.numeric(v):
                # only compared with the same component of other objects: values up to order
                o = sorted(set(x for (b, s), x in self.assign.items() if s == v.sig))
                if not o:
                    d = [0]
                else:
                    d = [o[0] - 1]
                    for i, x in enumerate(o):
                        d.append(x)
                        d.append((x + o[i + 1]) / 2.0 if i + 1 < len(o) else x + 1)
            self.assign[k] = self.choose(d or self.domain(v))
        elif not rel:
            self.absolute(v)
        return self.assign[k]

    def absolute(self, v):
        if v.sig not in self.abs and v.sig not in self.fixed and self.numeric(v):
            self.abs.add(v.sig)
            self.grown = True

    @staticmethod
    def numeric(v):
        t = v.type.replace("const ", "").strip()
        return not (t.startswith(("bool", "_Bool")) or "*" in t or any(s in t for s in STR) and "vector" not in t and "map" not in t)

    def kind(self, v):
        k = (v.obj, v.sig + "#kind")
        if k not in self.assign:
            self.assign[k] = self.choose(sorted(self.kinds.get(v.sig, ())) + ["other"])
        return self.assign[k]

    def truth(self, v):
        v = self.conc(v)
        if v is None:
            return False
        return bool(v)

    # ---- running
    def call(self, fn, args, this=None, depth=0, outer=None):
        if depth > 12:
            raise GiveUp("depth")
        env = {"this": this, "depth": depth}
        if outer is not None:
            env["outer"] = outer
        for i, p in enumerate(fn.params):
            if i < len(args):
                env[("p", i)] = args[i]
        try:
            self.stmt(fn.body, env, fn)
        except Ret as r:
            return r.v
        except (Brk, Cont):
            raise GiveUp("stray break")
        return None

    def stmt(self, n, env, fn):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise GiveUp("does not end")
        k = n.k
        if k == "{":
            for c in n.c:
                self.stmt(c, env, fn)
        elif k == "decl":
            for v in n.c:
                if v.k == "var":
                    env[("v", v.x[1])] = self.val(v.c[0], env, fn) if v.c else 0
        elif k == "if":
            for c in n.c[:2]:
                if c.k != "null":
                    self.stmt(c, env, fn)
            b = n.c[3] if self.truth(self.val(n.c[2], env, fn)) else n.c[4]
            if b.k != "null":
                self.stmt(b, env, fn)
        elif k in ("for", "while", "do"):
            if k == "for" and n.c[0].k != "null":
                self.stmt(n.c[0], env, fn)
            cond, body = (n.c[2], n.c[4]) if k == "for" else (n.c[1], n.c[2]) if k == "while" else (n.c[1], n.c[0])
            it = 0
            while True:
                it += 1
                if it > 8:
                    raise GiveUp("loop")
                if k != "do" or it > 1:
                    if cond.k != "null" and not self.truth(self.val(cond, env, fn)):
                        break
                try:
                    self.stmt(body, env, fn)
                except Brk:
                    break
                except Cont:
                    pass
                if k == "for" and n.c[3].k != "null":
                    self.val(n.c[3], env, fn)
        elif k == "switch":
            self.switch(n, env, fn)
        elif k in ("case", "default"):
            for c in n.c:
                self.stmt(c, env, fn)
        elif k == "break":
            raise Brk()
        elif k == "continue":
            raise Cont()
        elif k == "return":
            raise Ret(self.val(n.c[0], env, fn) if n.c and n.c[0].k != "null" else None)
        elif k == "try":
            self.stmt(n.c[0], env, fn)
        elif k in ("null", "nullstmt", ";"):
            pass
        elif k == "rfor":
            raise GiveUp("range loop")
        else:
            self.val(n, env, fn)

    def switch(self, n, env, fn):
        body = n.c[3]
        seq = body.c if body.k == "{" else [body]
        labs = []

        def labels(s):
            r = []
            while s is not None and s.k in ("case", "default"):
                r.append(s)
                s = s.c[0] if s.c and s.c[0].k in ("case", "default") else None
            return r
        for i, s in enumerate(seq):
            for l in labels(s):
                labs.append((i, l))
        v = self.val(n.c[2], env, fn)
        if isinstance(v, PV):
            for _, l in labs:
                if l.k == "case":
                    self.note_const(v, l.x[0])
            v = self.conc(v)
        start = None
        for i, l in labs:
            if l.k == "case" and (l.x[0] == v or (isinstance(l.x[1], int) and l.x[0] <= v <= l.x[1])):
                start = i
        if start is None:
            for i, l in labs:
                if l.k == "default":
                    start = i
        if start is None:
            return
        try:
            for s in seq[start:]:
                self.stmt(s, env, fn)
        except Brk:
            pass

    def note_const(self, v, c):
        if isinstance(v, PV) and isinstance(c, int) and not isinstance(c, bool):
            s = self.consts.setdefault(v.sig, set())
            if c not in s and len(s) < 40:
                s.add(c)
                if c not in (0, 1):
                    self.grown = True
                else:
                    self.grown = True

    # ---- expressions
    def rv(self, r):
        if isinstance(r, Ref):
            return r.env.get(r.key)
        return r

    def val(self, n, env, fn):
        return self.rv(self.ev(n, env, fn))

    def look(self, n, env, key):
        e = env
        while e is not None:
            if key in e:
                return Ref(e, key)
            e = e.get("outer")
        return None

    def ev(self, n, env, fn):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise GiveUp("does not end")
        k = n.k
        if k in ("icast", "cast", "cleanup", "darg", "mat", "bindtemp", "temp", "paren") and len(n.c) == 1:
            v = self.ev(n.c[0], env, fn)
            t = (n.type or "").replace("const ", "")
            if t == "bool" and isinstance(self.rv(v), PV):
                return self.truth(self.rv(v))
            return v
        if k == "int":
            return n.x[0] if isinstance(n.x[0], int) else PV(None, "lit", "int")
        if k in ("float", "flt"):
            try:
                return float(n.x[0])
            except (TypeError, ValueError):
                return PV(None, "flt:%s" % n.x[0], "double")
        if k == "bool":
            return bool(n.x[0])
        if k in ("str", "char"):
            return n.x[0]
        if k == "nullptr":
            return None
        if k == "this":
            return env["this"] if env.get("this") is not None else PV(None, "this", "")
        if k == "ref":
            w = n.x[0]
            if w == "e":
                return n.x[3]
            if w in ("p", "v", "s"):
                r = self.look(n, env, ("p" if w == "p" else "v", n.x[2]))
                if r is not None:
                    return r
            return PV(None, "g:%s" % n.x[1], n.type)
        if k == "mem":
            o = self.val(n.c[0], env, fn) if n.c else env.get("this")
            short = n.x[0].split("::")[-1]
            if isinstance(o, PV) and short == "_s" and norm(o.type).endswith("ASTString"):
                return self.conc(o)
            if isinstance(o, PV):
                return PV(o.obj, "%s.%s" % (o.sig, short), n.type)
            if isinstance(o, str) and short in ("_s", "_data"):
                return o
            if isinstance(o, tuple) and short in ("first", "second"):
                return o[0 if short == "first" else 1]
            raise GiveUp("member of %r" % (o,))
        if k == "un":
            op = n.x[0]
            if op in ("*", "&"):
                return self.ev(n.c[0], env, fn)
            if op in ("++", "p++", "--", "p--"):
                r = self.ev(n.c[0], env, fn)
                v = self.conc(self.rv(r))
                if isinstance(r, Ref) and isinstance(v, int):
                    nv = v + (1 if "+" in op else -1)
                    r.env[r.key] = nv
                    return v if op.startswith("p") else nv
                raise GiveUp("increment")
            v = self.conc(self.val(n.c[0], env, fn))
            if op == "!":
                return not self.truth(v)
            if isinstance(v, (int, float)):
                return {"-": -v, "+": v}.get(op, ~int(v))
            raise GiveUp("unary")
        if k == "bin":
            return self.binop(n, env, fn)
        if k == "?:":
            return self.ev(n.c[1] if self.truth(self.val(n.c[0], env, fn)) else n.c[2], env, fn)
        if k == "idx":
            return self.index(self.val(n.c[0], env, fn), self.position(n.c[1], env, fn), n.type)
        if k == "throw":
            raise Thrown()
        if k == "lambda":
            f = self.prog.F.get(n.x[0])
            if f is None or f.cfg is None:
                raise GiveUp("lambda")
            return Lam(f, env, env.get("this"))
        if k == "ocall":
            return self.ocall(n, env, fn)
        if k in ("call", "mcall"):
            return self.fcall(n, env, fn)
        if k == "ctor":
            a = [c for c in n.c if c.k != "darg"]
            if len(a) == 1:
                return self.ev(a[0], env, fn)
            return PV(None, "new:%s" % (n.cq,), n.type)
        if k == "ilist" and len(n.c) == 1:
            return self.ev(n.c[0], env, fn)
        raise GiveUp("expression %s" % k)

    def position(self, n, env, fn):
        """index value; an offset from a component of an object is a component of the object"""
        b = strip(n)
        if b.k == "bin" and b.x[0] in ("+", "-"):
            x, y = self.val(b.c[0], env, fn), self.val(b.c[1], env, fn)
            o = [v.obj for v in (x, y) if isinstance(v, PV) and v.obj is not None]
            if o and len(set(o)) == 1:
                return PV(o[0], "(%s%s%s)" % (x.sig if isinstance(x, PV) else x, b.x[0], y.sig if isinstance(y, PV) else y), "int")
            return self.arith(b.x[0], x, y)
        return self.val(n, env, fn)

    def index(self, o, i, t):
        o2, i2 = o, i
        if isinstance(o, str):
            i = self.conc(i)
            return (ord(o[i]) if i < len(o) else 0) if isinstance(i, int) else self.fail("index")
        if isinstance(i, PV) and i.obj is not None and isinstance(o, PV) and o.obj is None:
            return PV(i.obj, "%s[%s]" % (o.sig, i.sig), t)
        if isinstance(o, PV):
            if any(s in o.type for s in STR) and "vector" not in o.type:
                return self.index(self.conc(o), i, t)
            if isinstance(i, PV) and i.obj is None:
                return PV(o.obj, "%s[%s]" % (o.sig, i.sig), t)
            i = self.conc(i)
            return PV(o.obj, "%s[%s]" % (o.sig, i), t)
        return self.fail("index %r %r" % (o2, i2))

    def fail(self, s):
        raise GiveUp(s)

    def binop(self, n, env, fn):
        op = n.x[0]
        if op == "&&":
            return self.truth(self.val(n.c[0], env, fn)) and self.truth(self.val(n.c[1], env, fn))
        if op == "||":
            return self.truth(self.val(n.c[0], env, fn)) or self.truth(self.val(n.c[1], env, fn))
        if op == ",":
            self.ev(n.c[0], env, fn)
            return self.ev(n.c[1], env, fn)
        if op == "=":
            r = self.ev(n.c[0], env, fn)
            v = self.val(n.c[1], env, fn)
            if not isinstance(r, Ref):
                raise GiveUp("assignment")
            r.env[r.key] = v
            return v
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            r = self.ev(n.c[0], env, fn)
            if not isinstance(r, Ref):
                raise GiveUp("assignment")
            v = self.arith(op[:-1], self.rv(r), self.val(n.c[1], env, fn))
            r.env[r.key] = v
            return v
        return self.compare_(op, n, self.val(n.c[0], env, fn), self.val(n.c[1], env, fn))

    def compare_(self, op, n, x, y):
        if op in ("==", "!=", "<", "<=", ">", ">="):
            if literal(n.c[1]):
                self.note_const(x, y)
            if literal(n.c[0]):
                self.note_const(y, x)
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                c = 0
                for a, b in zip(x, y):
                    c = self.sign(a, b)
                    if c:
                        break
                x, y = c, 0
        return self.arith(op, x, y)

    def arith(self, op, x, y):
        if op in ("==", "!=", "<", "<=", ">", ">="):
            if isinstance(x, PV) and isinstance(y, PV) and x.sig == y.sig and x.obj == y.obj:
                return op in ("==", "<=", ">=")
            if isinstance(x, PV) and isinstance(y, PV) and x.sig == "@" and y.sig == "@" and op in ("==", "!=") and "*" in x.type:
                return op == "!="
            if isinstance(x, PV) and x.sig == "@" and y is None or isinstance(y, PV) and y.sig == "@" and x is None:
                if "null" not in self.fixed:
                    return op == "!="
        rel = isinstance(x, PV) and isinstance(y, PV) and op in ("==", "!=", "<", "<=", ">", ">=") and x.sig == y.sig
        x, y = self.conc(x, rel), self.conc(y, rel)
        if x is None and isinstance(y, str) and y[:3] != "ptr":
            x = ""
        if y is None and isinstance(x, str) and x[:3] != "ptr":
            y = ""
        if op in ("==", "!="):
            r = x == y and (x is None) == (y is None)
            return r if op == "==" else not r
        if op in ("<", "<=", ">", ">="):
            if x is None or y is None or isinstance(x, str) != isinstance(y, str):
                x, y = self.rank(x), self.rank(y)
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
            if op == "+" and isinstance(x, str) and isinstance(y, str):
                return x + y
            raise GiveUp("arithmetic on %r %r" % (x, y))
        try:
            return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y, "|": lambda: x | y,
                    "^": lambda: x ^ y, "<<": lambda: x << y, ">>": lambda: x >> y, "%": lambda: x % y,
                    "/": lambda: x // y}[op]()
        except (KeyError, ZeroDivisionError, TypeError, ValueError):
            raise GiveUp("arithmetic")

    @staticmethod
    def rank(x):
        return (0, "") if x is None else (1, str(x))

    def sign(self, x, y):
        rel = isinstance(x, PV) and isinstance(y, PV) and x.sig == y.sig
        x, y = self.conc(x, rel), self.conc(y, rel)
        if x is None or y is None or isinstance(x, str) != isinstance(y, str):
            x, y = self.rank(x), self.rank(y)
        return -1 if x < y else 1 if x > y else 0

    def ocall(self, n, env, fn):
        m = n.mname
        if m in ("operator->", "operator*") and len(n.c) == 1:
            return self.ev(n.c[0], env, fn)
        if m == "operator()":
            o = self.val(n.c[0], env, fn)
            if isinstance(o, Lam):
                return self.call(o.fn, [self.val(a, env, fn) for a in n.c[1:]], o.this, env["depth"] + 1, o.env)
            if len(n.c) == 1:
                return PV(o.obj, o.sig + "()", n.type) if isinstance(o, PV) else self.fail("call")
            ts = self.targets(n)
            if len(ts) == 1:
                return self.call(ts[0], [self.val(a, env, fn) for a in n.c[1:]], o, env["depth"] + 1)
            raise GiveUp("call operator")
        if m in ("operator[]",) and len(n.c) == 2:
            return self.index(self.val(n.c[0], env, fn), self.position(n.c[1], env, fn), n.type)
        mm = re.match(r"operator(==|!=|<|<=|>|>=|\+|-)$", m)
        if mm and len(n.c) == 2:
            x, y = self.val(n.c[0], env, fn), self.val(n.c[1], env, fn)
            ts = self.targets(n)
            # the operators of values, strings and iterators are judged on their own; others are looked into
            if len(ts) == 1 and isinstance(x, PV) and isinstance(y, PV) and x.obj != y.obj and x.sig == "@" and ts[0] is not self.root:
                return self.enter(ts[0], n, [x, y], env)
            return self.compare_(mm.group(1), n, x, y)
        if m == "operator=" and len(n.c) == 2:
            r = self.ev(n.c[0], env, fn)
            v = self.val(n.c[1], env, fn)
            if isinstance(r, Ref):
                r.env[r.key] = v
                return v
        if m == "operator!" and len(n.c) == 1:
            return not self.truth(self.val(n.c[0], env, fn))
        if m.startswith("operator ") and len(n.c) == 1:
            return self.ev(n.c[0], env, fn)
        raise GiveUp("operator %s" % m)

    def targets(self, n):
        return [t for t in self.prog.targets(n) if t.cfg is not None and t.file and not t.file.startswith("/")]

    def enter(self, t, n, args, env):
        if t.cls and not t.static and "(anonymous" not in t.q.split("::")[-1]:
            return self.call(t, args[1:], args[0], env["depth"] + 1)
        return self.call(t, args, env.get("this"), env["depth"] + 1)

    def isa(self, o, t, cast):
        if o is None:
            return None if cast else False
        if not isinstance(o, PV):
            raise GiveUp("kind of a value")
        if o.sig != "@" and self.conc(o) is None:
            return None if cast else False
        ks = self.kinds.setdefault(o.sig, set())
        if t not in ks:
            ks.add(t)
            self.grown = True
        k = self.kind(o)
        r = k == t or (k != "other" and t in [b.split("::")[-1] for b in self.prog.bases("MiniZinc::" + k)])
        if cast:
            return o if r else None
        return r

    def fcall(self, n, env, fn):
        m = n.mname
        cq = n.cq or ""
        mm = re.search(r"::(isa|cast|dynamicCast|dynCast)<(.*)>$", cq)
        args = n.args()
        if mm:
            o = self.val(args[0], env, fn) if args else self.val(n.c[0], env, fn) if n.c else env.get("this")
            t = mm.group(2).strip().split("::")[-1]
            if mm.group(1) == "cast":
                return o
            return self.isa(o, t, mm.group(1) != "isa")
        recv = None
        if n.k == "mcall":
            recv = self.val(n.c[0], env, fn)
        av = [self.val(a, env, fn) for a in args]
        return self.apply(n, m, cq, recv, av, env, fn)

    def apply(self, n, m, cq, recv, av, env, fn):
        ops = ([recv] if n.k == "mcall" else []) + av
        objs = set(v.obj for v in ops if isinstance(v, PV) and v.obj is not None)
        if cq.startswith("std::") and m in ("move", "forward", "addressof", "as_const", "tie", "make_pair", "make_tuple"):
            if len(av) == 1:
                return av[0]
            return tuple(av)
        if "numeric_limits" in cq and m in ("max", "min", "lowest", "infinity"):
            return float("inf") if m == "infinity" else 2 ** 31 - 1 if m == "max" else -2 ** 31
        if m in ("min", "max") and cq.startswith("std::") and len(av) == 2:
            s = self.sign(av[0], av[1])
            return (av[0] if s <= 0 else av[1]) if m == "min" else (av[0] if s >= 0 else av[1])
        ts = self.targets(n)
        vs = [v for v in ops if isinstance(v, PV) and v.obj is not None]
        if m in CMPF and (not ts or cq.startswith("std::")) and len(vs) >= 2:
            a, b = self.conc(vs[0]), self.conc(vs[1])
            if len(av) == 3 and isinstance(a, str) and isinstance(b, str):
                k = self.conc(av[2])
                a, b = a[:k], b[:k]
            return self.sign(a, b)
        if len(vs) == 2 and (len(objs) == 2 or vs[0].sig == vs[1].sig):
            # a comparison of two objects
            if len(ts) == 1 and (ts[0].key in self.modular or m in ("equal",)) and ts[0] is not self.root:
                s = self.sign(PV(vs[0].obj, vs[0].sig + "#cmp", "int"), PV(vs[1].obj, vs[1].sig + "#cmp", "int"))
                return s == 0 if m == "equal" else s
            if len(ts) == 1 and ts[0] is self.root:
                if all(v.sig == "@" for v in vs):
                    raise GiveUp("recursion on the same operands")
                return self.cmpval(n, vs[0], vs[1])
            if len(ts) == 1 and ts[0] is not self.root and ts[0].key not in self.opaque:
                t = ts[0]
                if t.static or not t.cls or n.k == "call":
                    return self.call(t, av, env.get("this"), env["depth"] + 1)
                return self.call(t, av, recv, env["depth"] + 1)
            if len(ts) == 1 and vs[0].sig == vs[1].sig:
                return self.cmpval(n, vs[0], vs[1])
            raise GiveUp("comparison through %s" % cq)
        strs = [v for v in ops if isinstance(v, str)]
        if m in CMPF and len(strs) == 2 and not ts:
            a, b = strs
            if m == "strncmp" and len(av) == 3:
                k = self.conc(av[2])
                a, b = a[:k], b[:k]
            return self.sign(a, b)
        if isinstance(recv, str) or (recv is None and len(strs) == 1 and len(ops) == 1):
            s = recv if isinstance(recv, str) else strs[0]
            if m in ("c_str", "data", "str"):
                return s
            if m in ("size", "length"):
                return len(s)
            if m == "empty":
                return not s
            if m in ("at",):
                return self.index(s, av[0], n.type)
            if m == "find" and len(av) >= 1 and isinstance(av[0], (str, int)):
                return s.find(av[0] if isinstance(av[0], str) else chr(av[0]))
        if m in ("isalpha", "isdigit", "isalnum", "isupper", "islower", "tolower", "toupper") and len(av) == 1:
            v = self.conc(av[0])
            if isinstance(v, int):
                c = chr(v)
                if m == "tolower":
                    return ord(c.lower())
                if m == "toupper":
                    return ord(c.upper())
                return int(getattr(c, m)()) * (1024 if m == "isalpha" else 1)
        if isinstance(recv, PV) and any(s in recv.type for s in STR) and "vector" not in recv.type and "pair" not in recv.type and (
                m in ("c_str", "size", "empty") or not ts and m in ("length", "data", "str", "at")):
            s = self.conc(recv)
            if isinstance(s, str):
                return self.apply(n, m, cq, s, av, env, fn)
        # accessors: look into small ones, so that related accessors stay related
        obj = list(objs)[0] if objs else None
        if self.lookin and len(ts) == 1 and (self.lookin is True or ts[0].ret == "bool") and self.small(ts[0]) and ts[0].key not in self.opaque and m not in (
                "eid", "iid") and not m.startswith(("eval_", "follow_")):
            t = ts[0]
            save = (dict(self.assign), self.pos)
            try:
                if n.k == "mcall" and not t.static:
                    if isinstance(recv, PV):
                        return self.call(t, av, recv, env["depth"] + 1)
                else:
                    return self.call(t, av, None, env["depth"] + 1)
            except (GiveUp, KeyError, TypeError, AttributeError):
                self.assign, self.pos = save[0], save[1]
                self.opaque.add(t.key)
                self.grown = True
                raise GiveUp("restart")
        if m in ("eid", "iid"):
            o = recv if isinstance(recv, PV) else av[0] if av and isinstance(av[0], PV) else None
            if o is not None:
                return PV(o.obj, o.sig + "#id", n.type)
        parts = []
        for v in ops:
            parts.append(v.sig if isinstance(v, PV) else repr(v))
        if recv is None and n.k == "mcall":
            raise Thrown()
        return PV(obj, "%s(%s)" % (last_name(cq) or m, ",".join(parts)), n.type)

    def cmpval(self, n, a, b):
        t = (n.type or "").replace("const ", "")
        if t == "bool":
            if n.mname.lower().endswith(("equal", "equals", "eq")):
                return self.sign(a, b) == 0
            raise GiveUp("recursive predicate")
        return self.sign(PV(a.obj, a.sig + "#cmp", "int"), PV(b.obj, b.sig + "#cmp", "int"))

    def small(self, t):
        c = getattr(t, "_small", None)
        if c is None:
            c = True
            cnt = 0
            for x in t.nodes:
                cnt += 1
                if cnt > 90 or x.k in ("for", "while", "rfor", "do", "new", "lambda", "try"):
                    c = False
                    break
            t._small = c
        return c
