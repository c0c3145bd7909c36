"""Structured path analysis with exceptions and destructors: runs a client's typestates over every path of a function.

A state is a frozenset of facts.  Facts ("val", path, s) with s in "-0+" track the sign of integers and the truth of booleans
that the client asks for; everything else belongs to the client.  Outcomes of a statement: fall through, break, continue,
return, throw (per exception type), end (process ends)."""
from .flow import strip, local_defs
from .facts import last_name
from .exc import exc, clean

SIGNS = ("-", "0", "+")


class TooMany(Exception):
    pass


class Frame(object):
    def __init__(self, fn, this=None, args=None, caps=None, depth=0, fid=()):
        self.fn, self.this, self.args, self.caps, self.depth, self.fid = fn, this, args or {}, caps, depth, fid
        self.consts = {}
        self.alias = {}
        self._decl = None
        self._set = None

    def decl(self, uid):
        if self._decl is None:
            self._decl = {}
            for v in self.fn.walk():
                if v.k == "var":
                    self._decl[v.x[1]] = v
        return self._decl.get(uid)


    def once(self, uid):
        """is the local never changed after its declaration"""
        if self._set is None:
            self._set = set()
            for v in self.fn.walk():
                if v.k == "bin" and v.x[0].endswith("=") and v.x[0] not in ("==", "!=", "<=", ">=") or \
                        v.k == "un" and v.x[0] in ("++", "--", "p++", "p--", "&"):
                    t = strip(v.c[0])
                    if t is not None and t.k == "ref" and t.x[0] == "v":
                        self._set.add(t.x[2])
        return uid not in self._set


class Out(object):
    __slots__ = ("norm", "brk", "cont", "ret", "thr", "end")

    def __init__(self, norm=()):
        self.norm = set(norm)
        self.brk, self.cont, self.ret, self.end = set(), set(), set(), set()
        self.thr = {}

    def side(self, o):
        """take over everything but the normal outcome"""
        self.brk |= o.brk
        self.cont |= o.cont
        self.ret |= o.ret
        self.end |= o.end
        for t, s in o.thr.items():
            self.thr.setdefault(t, set()).update(s)

    def map(self, f):
        """apply f (state -> states) to every way of leaving"""
        for a in ("norm", "brk", "cont", "ret"):
            setattr(self, a, {y for x in getattr(self, a) for y in f(x)})
        self.thr = {t: {y for x in s for y in f(x)} for t, s in self.thr.items()}


class Client(object):
    """override what is needed"""
    def call(self, eng, n, st, fr):
        """effect of a call: None (not ours) or list of (state, sign or None); ("end", state) entries end the process"""
        return None

    def inline(self, eng, n, f, fr):
        return False

    def tracked(self, eng, fr, path, n):
        """is the value of this variable or field of interest"""
        return False

    def visit(self, eng, n, st, fr):
        """every evaluated node, after its operands; may return a new state"""
        return st

    def dtor(self, eng, var, cls):
        """destructor function of a local to run, or None"""
        return None

    def mark(self, eng, n, st, fr):
        pass


class Paths(object):
    def __init__(self, prog, client, limit=3000, maxdepth=5):
        self.prog, self.cl, self.limit, self.maxdepth = prog, client, limit, maxdepth
        self.exc = exc(prog)
        self.unrolled = 8
        self.ctorpath = {}

    # ---------------------------------------------------------------- paths and values
    def path(self, n, fr):
        n = strip(n)
        while n is not None:
            if n.k in ("icast", "cast", "scast", "ccast", "paren", "(", "temp", "bind", "mat", "darg") and n.c:
                n = strip(n.c[-1])
            elif n.k == "un" and n.x[0] in ("*", "&"):
                n = strip(n.c[0])
            else:
                break
        if n is None:
            return None
        if n.k == "this":
            return fr.this
        if n.k == "ref":
            if n.x[0] in ("v", "p", "c"):
                nm = n.x[1]
                if fr.caps is not None and not self._own(fr, n):
                    return fr.caps(nm)
                if n.x[0] == "p":
                    return fr.args.get(n.x[2], ("p", fr.fid, nm))
                uid = n.x[2]
                if uid in fr.alias:
                    return fr.alias[uid]
                d = fr.decl(uid)
                if d is not None and d.c and d.p is not None and d.p.k == "decl" and (
                        "&" in (d.type or "") or "*" in (d.type or "") and fr.once(uid)):
                    t = self.path(d.c[0], fr)
                    if t is not None:
                        return t
                return ("v", fr.fid, nm, uid)
            if n.x[0] in ("s", "g", "f", "e"):
                return ("g", n.x[1])
            return None
        if n.k == "mem":
            b = self.path(n.c[0], fr) if n.c else fr.this
            return None if b is None else b + (n.x[0],)
        if n.k == "idx" or n.k == "ocall" and n.mname == "operator[]":
            b = self.path(n.c[0], fr)
            if b is None:
                return None
            i = self.const(n.c[1], fr)
            return b + (("i", i if i is not None else "*"),)
        if n.k == "ocall" and n.mname in ("operator*", "operator->") and n.c:
            return self.path(n.c[0], fr)
        if n.k == "mcall" and n.mname in ("get", "data") and n.c and not n.args():
            return self.path(n.c[0], fr)
        if n.k == "mcall" and n.mname in ("value",):
            return None
        return None

    def _own(self, fr, n):
        if n.x[0] == "p":
            return n.x[2] < len(fr.fn.params) and fr.fn.params[n.x[2]][0] == n.x[1]
        if n.x[0] == "c":
            return False
        return fr.decl(n.x[2]) is not None and fr.decl(n.x[2]).x[0] == n.x[1]

    def const(self, e, fr):
        e = strip(e)
        while e is not None and e.k in ("icast", "cast", "scast", "ccast") and e.c:
            e = strip(e.c[-1])
        if e is None:
            return None
        if e.k == "int":
            try:
                return int(e.x[0])
            except (TypeError, ValueError):
                return None
        if e.k == "bool":
            return int(bool(e.x[0]))
        if e.k == "nullptr":
            return 0
        if e.k == "ref" and e.x[0] == "v" and e.x[2] in fr.consts:
            return fr.consts[e.x[2]]
        if e.k == "ref" and e.x[0] == "e" and len(e.x) > 3:
            try:
                return int(e.x[3])
            except (TypeError, ValueError):
                return None
        if e.k == "un" and e.x[0] in ("-", "+") and e.c:
            v = self.const(e.c[0], fr)
            return None if v is None else (-v if e.x[0] == "-" else v)
        if e.k == "sizeof":
            return e.x[1] if len(e.x) > 1 and isinstance(e.x[1], int) and e.x[1] > 0 else None
        if e.k == "bin" and e.x[0] in ("+", "-", "*", "/"):
            a, b = self.const(e.c[0], fr), self.const(e.c[1], fr)
            if a is None or b is None or e.x[0] == "/" and (b <= 0 or a < 0):
                return None
            return a + b if e.x[0] == "+" else a - b if e.x[0] == "-" else a * b if e.x[0] == "*" else a // b
        return None

    @staticmethod
    def get(st, path):
        for f in st:
            if f[0] == "val" and f[1] == path:
                return f[2]
        return None

    @staticmethod
    def put(st, path, v):
        st = frozenset(f for f in st if not (f[0] == "val" and f[1] == path))
        return st | {("val", path, v)} if v is not None else st

    def tok(self, e, st, fr):
        """what the client knows the value of an expression to be (a token put on a variable or call), or None"""
        e = strip(e)
        while e is not None and e.k in ("icast", "cast", "scast", "ccast", "paren", "(", "bind", "mat", "temp", "darg") and e.c:
            e = strip(e.c[-1])
        if e is None:
            return None
        c = self.const(e, fr)
        if c is not None:
            return ("const", c)
        if e.k == "ctor" and len(e.c) == 1:
            return self.tok(e.c[0], st, fr)
        if e.k == "bin" and e.x[0] == "=":
            return self.tok(e.c[0], st, fr)
        if e.is_call() or e.k in ("cond", "?:"):
            p = ("node", e.id, fr.fid)
        else:
            p = self.path(e, fr)
        if p is None:
            return None
        return self.gettok(st, p)

    @staticmethod
    def gettok(st, p):
        for f in st:
            if f[0] == "tok" and f[1] == p:
                return f[2]
        return None

    @staticmethod
    def puttok(st, p, t):
        st = frozenset(f for f in st if not (f[0] == "tok" and f[1] == p))
        return st | {("tok", p, t)} if t is not None else st

    def assign(self, st, p, e, ty, n, fr):
        """state after the value of e is stored at p"""
        v = self.coerce(self.value(e, st, fr), ty) if e is not None and self.cl.tracked(self, fr, p, n) else None
        t = self.tok(e, st, fr) if e is not None else None
        return self.puttok(self.put(st, p, v), p, t)

    @staticmethod
    def drop(st, pred):
        return frozenset(f for f in st if not pred(f))

    def value(self, e, st, fr):
        """sign of an expression in a state, or None"""
        e = strip(e)
        while e is not None and (e.k in ("icast", "cast", "scast", "ccast", "paren", "(", "bind", "mat", "temp", "darg")) and e.c:
            if e.k in ("icast", "scast", "ccast", "cast"):
                v = self.value(e.c[-1], st, fr)
                if v == "-" and "unsigned" in (e.type or "") or v == "-" and (e.type or "") in ("size_t", "std::size_t"):
                    return "+"
                if v == "-" and (e.type or "") == "bool":
                    return "+"
                return v
            e = strip(e.c[-1])
        if e is None:
            return None
        c = self.const(e, fr)
        if c is not None:
            return "0" if c == 0 else "+" if c > 0 else "-"
        if e.k == "nullptr":
            return "0"
        if e.is_call() or e.k in ("cond", "?:"):
            return self.get(st, ("node", e.id, fr.fid))
        if e.k == "bin" and e.x[0] == "=":
            return self.value(e.c[0], st, fr)
        if e.k == "bin" and e.x[0] in ("==", "!=", "<", "<=", ">", ">="):
            r = self.compare(e.x[0], e.c[0], e.c[1], st, fr)
            return None if r is None else "+" if r else "0"
        if e.k == "bin" and e.x[0] in ("&&", "||"):
            a, b = self.value(e.c[0], st, fr), self.value(e.c[1], st, fr)
            if e.x[0] == "&&":
                return "0" if "0" in (a, b) else "+" if a and b else None
            return "+" if (a or "0") != "0" or (b or "0") != "0" else "0" if a and b else None
        if e.k == "un" and e.x[0] == "!":
            a = self.value(e.c[0], st, fr)
            return None if a is None else "+" if a == "0" else "0"
        p = self.path(e, fr)
        if p is None:
            return None
        v = self.get(st, p)
        if v is None:
            t = self.gettok(st, p)
            if t is not None and t[0] == "const" and isinstance(t[1], int):
                v = "0" if t[1] == 0 else "+" if t[1] > 0 else "-"
        return v

    def compare(self, op, a, b, st, fr):
        ka, kb = self.const(a, fr), self.const(b, fr)
        va, vb = self.value(a, st, fr), self.value(b, st, fr)
        if kb is None and ka is not None:
            a, b, ka, kb, va, vb = b, a, kb, ka, vb, va
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if va is None or kb is None:
            return None
        # va: "-" is exactly -1 or any negative number
        lo, hi = {"-": (None, -1), "0": (0, 0), "+": (1, None)}[va]
        if op in ("==", "!="):
            if hi is not None and kb > hi or lo is not None and kb < lo:
                r = False
            elif va == "0" or (va == "-" and kb == -1):
                r = True
            else:
                return None
            return r if op == "==" else not r
        if op in (">", "<="):
            if lo is not None and lo > kb:
                r = True
            elif hi is not None and hi <= kb:
                r = False
            else:
                return None
            return r if op == ">" else not r
        if lo is not None and lo >= kb:
            r = True
        elif hi is not None and hi < kb:
            r = False
        else:
            return None
        return r if op == ">=" else not r

    # ---------------------------------------------------------------- expressions
    def expr(self, n, states, fr, out):
        """evaluate an expression for its effects; returns the set of states after it; throws go to out"""
        if n is None:
            return states
        if len(states) > self.limit:
            raise TooMany()
        k = n.k
        if k == "lambda" or k in ("sizeof", "type"):
            return states
        if k == "bin" and n.x[0] in ("&&", "||"):
            t, f = self.cond(n, states, fr, out)
            return t | f
        if k == "cond" or k == "?:":
            t, f = self.cond(n.c[0], states, fr, out)
            res = set()
            for e, ss in ((n.c[1], t), (n.c[2], f)):
                for st in self.expr(e, ss, fr, out):
                    v, tk = self.value(e, st, fr), self.tok(e, st, fr)
                    p = ("node", n.id, fr.fid)
                    res.add(self.puttok(self.put(st, p, v), p, tk))
            return res
        if k == "throw":
            for c in n.c:
                states = self.expr(c, states, fr, out)
            ty = clean(n.x[0]) if n.x and n.x[0] else self._rethrow(n)
            for t in (ty if isinstance(ty, (set, list, tuple)) else [ty]):
                out.thr.setdefault(t, set()).update(states)
            return set()
        kids = n.c
        if n.k == "ctor" or n.is_call():
            kids = n.c
        for c in kids:
            states = self.expr(c, states, fr, out)
            if not states:
                return states
        if n.is_call() or k in ("ctor", "new"):
            states = self.call(n, states, fr, out)
        elif k == "bin" and n.x[0].endswith("=") and n.x[0] not in ("==", "!=", "<=", ">="):
            p = self.path(n.c[0], fr)
            if p is not None:
                e = n.c[1] if n.x[0] == "=" else None
                states = {self.assign(st, p, e, n.c[0].type, n.c[0], fr) for st in states}
        elif k == "un" and n.x[0] in ("++", "--", "p++", "p--"):
            p = self.path(n.c[0], fr)
            if p is not None:
                states = {self.assign(st, p, None, None, None, fr) for st in states}
        ns = set()
        for st in states:
            r = self.cl.visit(self, n, st, fr)
            if r is not None:
                ns.add(r)
        return ns

    def _rethrow(self, n):
        p = n.p
        while p is not None:
            if p.k == "catch":
                return self._hin.get(p.id, {"?"}) if hasattr(self, "_hin") else {"?"}
            p = p.p
        return {"?"}

    @staticmethod
    def coerce(v, ty):
        t = (ty or "").replace("const ", "")
        if v == "-" and ("unsigned" in t or t in ("size_t", "std::size_t", "bool")):
            return "+"
        return v

    def named(self, v, fr):
        """the initialiser of a bool whose only use is the condition of the `if` that follows its declaration"""
        memo = self.__dict__.setdefault("_named", {})
        key = (fr.fn.key, v.id)
        if key in memo:
            return memo[key]
        memo[key] = None
        d = v.p
        if (v.type or "").replace("const ", "") != "bool" or len(v.c) != 1 or v.c[0] is None or d is None or d.k != "decl" \
                or len(d.c) != 1 or d.p is None or d.p.k != "{":
            return None
        kids = d.p.c
        i = next(j for j, c in enumerate(kids) if c is d)
        if i + 1 >= len(kids) or kids[i + 1] is None or kids[i + 1].k != "if":
            return None
        s = kids[i + 1]
        if any(c is not None and c.k != "null" for c in s.c[:2]) or s.c[2] is None:
            return None
        refs = [r for r in fr.fn.walk() if r.k == "ref" and r.x[0] == "v" and r.x[2] == v.x[1]]
        if len(refs) != 1:
            return None
        c = s.c[2]
        while c is not None and c is not refs[0] and (c.k in ("icast", "paren", "(", "cast", "scast") or c.k == "un" and c.x[0] == "!") and len(c.c) == 1:
            c = c.c[0]
        if c is not refs[0]:
            return None
        memo[key] = v.c[0]
        return v.c[0]

    def cond(self, n, states, fr, out):
        """(true states, false states)"""
        m = strip(n)
        while m is not None and m.k in ("icast", "paren", "(", "cast", "scast") and m.c:
            m = strip(m.c[-1])
        if m is None:
            return states, states
        if m.k == "un" and m.x[0] == "!":
            t, f = self.cond(m.c[0], states, fr, out)
            return f, t
        if m.k == "bin" and m.x[0] == "&&":
            t, f = self.cond(m.c[0], states, fr, out)
            t2, f2 = self.cond(m.c[1], t, fr, out)
            return t2, f | f2
        if m.k == "bin" and m.x[0] == "||":
            t, f = self.cond(m.c[0], states, fr, out)
            t2, f2 = self.cond(m.c[1], f, fr, out)
            return t | t2, f2
        if m.k == "ref" and m.x[0] == "v":
            d = fr.decl(m.x[2])
            i = self.named(d, fr) if d is not None else None
            if i is not None:
                return self.cond(i, states, fr, out)
        states = self.expr(m, states, fr, out)
        T, F = set(), set()
        for st in states:
            v = self.value(m, st, fr)
            if v is None:
                a, b = self.assume(m, st, fr)
                if a is not None:
                    T.add(a)
                if b is not None:
                    F.add(b)
            elif v == "0":
                F.add(st)
            else:
                T.add(st)
        r = self.cl_cond(m, T, F, fr)
        return r

    def assume(self, m, st, fr):
        """states after m is found true / false, when its value was unknown"""
        p = self.path(m, fr) if m.k in ("ref", "mem", "idx") else None
        if p is not None and self.cl.tracked(self, fr, p, m):
            return self.put(st, p, "+"), self.put(st, p, "0")
        return st, st

    def cl_cond(self, m, T, F, fr):
        f = getattr(self.cl, "cond", None)
        if f is None:
            return T, F
        return {x for x in (f(self, m, True, st, fr) for st in T) if x is not None}, \
            {x for x in (f(self, m, False, st, fr) for st in F) if x is not None}

    # ---------------------------------------------------------------- calls
    def lam(self, n, fr):
        if n.k != "ocall" or n.mname != "operator()" or not n.c:
            return None
        r = strip(n.c[0])
        if r is not None and r.k == "ref":
            k = self.exc._lambda_by_var(r)
            if k is not None:
                return self.prog.F.get(k)
        return None

    def call(self, n, states, fr, out):
        done = set()
        rest = set()
        for st in states:
            r = self.cl.call(self, n, st, fr)
            if r is None:
                rest.add(st)
                continue
            for s, v in r:
                if s == "end":
                    out.end.add(v)
                elif s == "throw":
                    out.thr.setdefault(v[0], set()).add(v[1])
                else:
                    done.add(self.put(s, ("node", n.id, fr.fid), v) if v is not None else s)
        if not rest:
            return done
        lam = self.lam(n, fr)
        ts = [lam] if lam is not None else [g for g in self.exc.call_targets(n)]
        ts = [g for g in ts if g is not None and g.body is not None]
        inl = [g for g in ts if fr.depth < self.maxdepth and self.cl.inline(self, n, g, fr)]
        if inl and len(inl) == len(ts):
            for g in inl:
                done |= self.enter(n, g, rest, fr, out, lam is not None)
            return done
        # not ours: it may throw
        for t in self.exc.raised(n):
            out.thr.setdefault(t, set()).update(rest)
        return done | rest

    def enter(self, n, g, states, fr, out, islam=False):
        args = list(n.args()) if n.is_call() else list(n.c)
        if islam and n.k == "ocall":
            args = n.c[1:]
        this = fr.this
        caps = None
        if islam:
            caps = lambda nm, fr=fr, g=g: self._cap(nm, fr)
        elif n.k == "mcall":
            this = self.path(n.c[0], fr) if n.c else fr.this
        elif n.k in ("ctor", "new"):
            this = self.ctorpath.get((n.id, fr.fid)) or ("tmp", n.id) + fr.fid
        fid = fr.fid + (n.id,)
        am = {}
        pre = states
        for i, p in enumerate(g.params):
            if i >= len(args) or args[i] is None:
                continue
            if "&" in p[1] or "*" in p[1] or "[" in p[1]:
                t = self.path(args[i], fr)
                if t is not None:
                    am[i] = t
                    continue
            t = ("p", fid, p[0])
            am[i] = t
            pre = {self.puttok(self.put(st, t, self.coerce(self.value(args[i], st, fr), p[1])), t, self.tok(args[i], st, fr))
                   for st in pre}
        f2 = Frame(g, this, am, caps, fr.depth + 1, fid)
        o = self.func(g, pre, f2)
        out.end |= o.end
        for t, s in o.thr.items():
            out.thr.setdefault(t, set()).update({self.leave(x, fid) for x in s})
        res = set()
        for x in o.norm | o.ret:
            v = self.get(x, ("ret", fid))
            t = self.gettok(x, ("ret", fid))
            x = self.leave(x, fid)
            p = ("node", n.id, fr.fid)
            x = self.put(x, p, v) if v is not None else x
            res.add(self.puttok(x, p, t) if t is not None else x)
        return res

    def _cap(self, nm, fr):
        for i, p in enumerate(fr.fn.params):
            if p[0] == nm:
                return fr.args.get(i, ("p", fr.fid, nm))
        best = None
        for v in fr.fn.walk():
            if v.k == "var" and v.x[0] == nm:
                uid = v.x[1]
                if uid in fr.alias:
                    return fr.alias[uid]
                if v.c and "&" in (v.type or ""):
                    t = self.path(v.c[0], fr)
                    if t is not None:
                        return t
                best = ("v", fr.fid, nm, uid)
        if best is None and fr.caps is not None:
            return fr.caps(nm)
        return best

    def leave(self, st, fid):
        def local(f):
            if f[0] not in ("val", "tok"):
                return False
            p = f[1]
            if p[0] in ("v", "p", "ret"):
                return p[1] == fid
            return p[0] == "node" and p[2] == fid
        return self.drop(st, local)

    def func(self, g, states, fr):
        o = Out(states)
        body = g.root
        res = Out()
        cur = set(states)
        for c in body.c:
            if c is None:
                continue
            if c.k == "init":
                cur = self.init(c, cur, fr, res)
                continue
            if c.k == "{" or c.k == "try":
                r = self.stmt(c, cur, fr)
                res.side(r)
                cur = r.norm
            else:
                cur = self.expr(c, cur, fr, res)
        res.norm = cur
        return res

    def init(self, c, states, fr, out):
        for e in c.c:
            states = self.expr(e, states, fr, out)
        f = c.x[0] if c.x else None
        if f and fr.this is not None and c.c:
            p = fr.this + (last_name(f),)
            states = {self.assign(st, p, c.c[0], None, c, fr) for st in states}
        return states

    # ---------------------------------------------------------------- statements
    def stmts(self, kids, states, fr, out):
        """sequence with the destructors of its locals at the end"""
        cur = set(states)
        locs = []
        res = Out()
        for c in kids:
            if c is None:
                continue
            if not cur:
                # a label may still be reached; not handled
                pass
            r = self.stmt(c, cur, fr)
            # locals declared so far are destroyed when it is left early
            for v, d in reversed(locs):
                keep = r.norm
                r.norm = set()
                self.destroy(v, d, r, fr)
                r.norm = keep
            res.side(r)
            cur = {self.clean_nodes(s) for s in r.norm}
            if c.k == "decl":
                for v in c.c:
                    if v.k == "var":
                        d = self.cl.dtor(self, v, self.cls_of(v.type))
                        if d is not None:
                            locs.append((v, d))
        res.norm = cur
        uids = {v.x[1] for c in kids if c is not None and c.k == "decl" for v in c.c if v is not None and v.k == "var"}
        if uids:
            fid = fr.fid
            gone = lambda f: f[0] in ("val", "tok") and f[1][0] == "v" and f[1][1] == fid and f[1][3] in uids
        for v, d in reversed(locs):
            only = Out(res.norm)
            self.destroy(v, d, only, fr)
            res.norm = only.norm
            res.side(Out()) if False else None
            for t, s in only.thr.items():
                res.thr.setdefault(t, set()).update(s)
        if uids:
            for a in ("norm", "brk", "cont", "ret"):
                setattr(res, a, {self.drop(x, gone) for x in getattr(res, a)})
            res.thr = {t: {self.drop(x, gone) for x in s} for t, s in res.thr.items()}
        return res

    def cls_of(self, ty):
        return clean(ty)

    def destroy(self, v, d, out, fr):
        p = ("v", fr.fid, v.x[0], v.x[1])
        fid = fr.fid + ("~", v.id)
        extra = Out()

        def run(st):
            f2 = Frame(d, p, {}, None, fr.depth + 1, fid)
            o = self.func(d, {st}, f2)
            extra.end |= o.end
            res = {self.leave(x, fid) for x in o.norm | o.ret}
            for s in o.thr.values():
                res |= {self.leave(x, fid) for x in s}
            return {self.drop(x, lambda f: f[0] in ("val", "tok") and f[1][:len(p)] == p) for x in res}
        out.map(run)
        out.end |= extra.end

    def chosen(self, sw, label, states, fr):
        """the states in which a switch may jump to this label (None: to no label)"""
        e = [c for c in sw.c[:-1] if c is not None and c.k != "null"]
        if not e or e[-1].k == "decl":
            return states
        v = label.x[0] if label is not None and label.k == "case" and label.x else None
        labels = None
        res = set()
        for st in states:
            t = self.tok(e[-1], st, fr)
            if t is None or t[0] != "const":
                res.add(st)
                continue
            if label is None or label.k == "default":
                if labels is None:
                    labels = {m.x[0] for m in sw.c[-1].walk() if m.k == "case" and m.x}
                if t[1] not in labels:
                    res.add(st)
            elif not isinstance(v, int) or v == t[1]:
                res.add(st)
        return res

    def clean_nodes(self, st):
        return self.drop(st, lambda f: f[0] in ("val", "tok") and f[1][0] == "node")

    def stmt(self, n, states, fr):
        if len(states) > self.limit:
            raise TooMany()
        out = Out()
        if n is None or not states and n.k not in ("case", "default", "label"):
            out.norm = set(states)
            return out
        k = n.k
        if k == "{":
            return self.stmts(n.c, states, fr, out)
        if k == "if":
            cur = states
            scoped = []
            for d in n.c[:2]:
                if d is not None and d.k != "null":
                    r = self.stmt(d, cur, fr)
                    out.side(r)
                    cur = r.norm
            T, F = self.cond(n.c[2], cur, fr, out)
            T = {self.clean_nodes(s) for s in T}
            F = {self.clean_nodes(s) for s in F}
            r = self.stmt(n.c[3], T, fr) if n.c[3] is not None else Out(T)
            out.side(r)
            out.norm = set(r.norm)
            e = n.c[4] if len(n.c) > 4 else None
            if e is not None and e.k != "null":
                r = self.stmt(e, F, fr)
                out.side(r)
                out.norm |= r.norm
            else:
                out.norm |= F
            return out
        if k in ("while", "for", "do", "rfor"):
            return self.loop(n, states, fr)
        if k == "switch":
            cur = set(states)
            for c in n.c[:-1]:
                if c is not None and c.k != "null":
                    if c.k == "decl":
                        r = self.stmt(c, cur, fr)
                        out.side(r)
                        cur = r.norm
                    else:
                        cur = self.expr(c, cur, fr, out)
            body = n.c[-1]
            kids = body.c if body.k == "{" else [body]
            flow = set()
            hasdef = False
            for c in kids:
                x = c
                while x is not None and x.k in ("case", "default"):
                    flow |= self.chosen(n, x, cur, fr)
                    hasdef |= x.k == "default"
                    x = x.c[-1] if x.c else None
                    while x is not None and x.k not in ("case", "default") and False:
                        pass
                    if x is None or x.k not in ("case", "default"):
                        break
                if x is None:
                    continue
                r = self.stmt(x, flow, fr)
                b = r.brk
                r.brk = set()
                out.side(r)
                out.norm |= b
                flow = r.norm
            out.norm |= flow
            if not hasdef:
                out.norm |= self.chosen(n, None, cur, fr)
            return out
        if k in ("case", "default", "label"):
            return self.stmt(n.c[-1], states, fr) if n.c else Out(states)
        if k == "break":
            out.brk = set(states)
            return out
        if k == "continue":
            out.cont = set(states)
            return out
        if k == "return":
            cur = states
            for c in n.c:
                cur = self.expr(c, cur, fr, out)
            for st in cur:
                v = self.value(n.c[0], st, fr) if n.c else None
                st2 = self.put(st, ("ret", fr.fid), v) if v is not None else st
                t = self.tok(n.c[0], st, fr) if n.c else None
                if t is not None:
                    st2 = self.puttok(st2, ("ret", fr.fid), t)
                r = getattr(self.cl, "onreturn", None)
                if r is not None:
                    st2 = r(self, n, st2, fr)
                out.ret.add(st2)
            return out
        if k == "decl":
            cur = states
            if len(n.c) == 1 and n.c[0] is not None and n.c[0].k == "var" and self.named(n.c[0], fr) is not None:
                # the condition of the following statement has a name of its own: decided there
                out.norm = cur
                return out
            for v in n.c:
                if v is None:
                    continue
                if v.k != "var":
                    continue
                for c in v.c:
                    x = strip(c)
                    if x is not None and x.k in ("ctor", "new"):
                        self.ctorpath[(x.id, fr.fid)] = ("v", fr.fid, v.x[0], v.x[1])
                    cur = self.expr(c, cur, fr, out)
                p = ("v", fr.fid, v.x[0], v.x[1])
                h = getattr(self.cl, "declare", None)
                if h is not None:
                    cur = {h(self, v, p, st, fr) for st in cur}
                if "&" not in (v.type or ""):
                    cur = {self.assign(st, p, v.c[0] if v.c else None, v.type, v, fr) for st in cur}
            out.norm = cur
            return out
        if k == "try":
            hs = self.exc.handlers(n)
            r = self.stmt(self.exc.body(n), states, fr)
            thr = r.thr
            r.thr = {}
            out.side(r)
            out.norm = set(r.norm)
            hin = {}
            for t, ss in thr.items():
                left = set(ss)
                for h in hs:
                    c = self.exc.caught(h.x[0], t)
                    if c or c is None:
                        a = hin.setdefault(h.id, (h, set(), {}))
                        a[1].add(t)
                        a[2].setdefault(t, set()).update(left)
                        if c:
                            left = set()
                            break
                if left:
                    out.thr.setdefault(t, set()).update(left)
            for h, ts, by in hin.values():
                if not hasattr(self, "_hin"):
                    self._hin = {}
                # run each type on its own so that a rethrow passes on what was caught
                for t, ss in by.items():
                    hook = getattr(self.cl, "oncatch", None)
                    if hook is not None:
                        ss = {hook(self, h, t, x, fr) for x in ss}
                    old = self._hin.get(h.id)
                    self._hin[h.id] = {t}
                    hr = self.stmts(h.c, ss, fr, out)
                    if old is None:
                        self._hin.pop(h.id, None)
                    else:
                        self._hin[h.id] = old
                    out.side(hr)
                    out.norm |= hr.norm
            return out
        if k == "null":
            out.norm = set(states)
            return out
        if k == "goto":
            out.norm = set()
            return out
        out.norm = self.expr(n, states, fr, out)
        return out

    def loop(self, n, states, fr):
        out = Out()
        k = n.k
        init = cond = inc = body = None
        if k == "for":
            init, cond, inc, body = n.c[0], n.c[2], n.c[3], n.c[4]
        elif k == "while":
            cond, body = n.c[1], n.c[2]
        elif k == "do":
            body, cond = n.c[0], n.c[1]
        else:
            body = n.c[-1]
        cur = set(states)
        if init is not None and init.k != "null":
            r = self.stmt(init, cur, fr)
            out.side(r)
            cur = r.norm
        u = self.unroll(n, init, cond, inc, fr) if k in ("for", "rfor") else None
        if u is not None:
            bind, vals = u
            exits = set()
            for v in vals:
                bind(v)
                r = self.stmt(body, cur, fr)
                exits |= r.brk
                r.brk = set()
                nxt = r.norm | r.cont
                r.cont = set()
                out.side(r)
                cur = {self.clean_nodes(s) for s in nxt}
            bind(None)
            out.norm = cur | exits
            return out
        if k == "rfor":
            for c in n.c[:-1]:
                if c is not None and c.k not in ("null", "{"):
                    if c.k == "decl":
                        for v in c.c:
                            if v.k == "var" and v.x[0].startswith("__") :
                                for y in v.c:
                                    cur = self.expr(y, cur, fr, out)
                    else:
                        pass
        seen = set()
        exits = set()
        work = set(cur)
        first = k == "do"
        while work:
            seen |= work
            if len(seen) > self.limit:
                raise TooMany()
            if first:
                T, F = work, set()
            elif k == "rfor":
                T, F = work, work
            elif cond is not None and cond.k != "null":
                T, F = self.cond(cond, work, fr, out)
            else:
                T, F = work, set()
            exits |= {self.clean_nodes(s) for s in F}
            T = {self.clean_nodes(s) for s in T}
            r = self.stmt(body, T, fr)
            exits |= r.brk
            r.brk = set()
            nxt = r.norm | r.cont
            r.cont = set()
            out.side(r)
            if k == "for" and inc is not None and inc.k != "null":
                nxt = self.expr(inc, nxt, fr, out)
            if k == "do":
                T2, F2 = self.cond(cond, nxt, fr, out)
                exits |= {self.clean_nodes(s) for s in F2}
                nxt = T2
                first = True
            work = {self.clean_nodes(s) for s in nxt} - seen
        out.norm = exits
        return out

    def unroll(self, n, init, cond, inc, fr):
        if n.k == "for":
            if init is None or init.k != "decl" or len(init.c) != 1 or not init.c[0].c:
                return None
            v = init.c[0]
            uid = v.x[1]
            a = self.const(v.c[0], fr)
            c = strip(cond) if cond is not None else None
            if a is None or c is None or c.k != "bin" or c.x[0] not in ("<", "<=", "!="):
                return None
            l = strip(c.c[0])
            while l is not None and l.k in ("icast",):
                l = strip(l.c[-1])
            b = self.const(c.c[1], fr)
            if b is None or l is None or l.k != "ref" or l.x[2] != uid:
                return None
            i = strip(inc) if inc is not None else None
            if i is None or i.k != "un" or i.x[0] not in ("++", "p++"):
                return None
            vals = list(range(a, b + (1 if c.x[0] == "<=" else 0)))
            if len(vals) > self.unrolled:
                return None

            def bind(x):
                if x is None:
                    fr.consts.pop(uid, None)
                else:
                    fr.consts[uid] = x
            return bind, vals
        # range over an array of known size
        rng = None
        var = None
        for c in n.c[:-1]:
            if c is None:
                continue
            for v in c.walk():
                if v.k == "var":
                    if v.x[0].startswith("__range"):
                        rng = v
                    elif not v.x[0].startswith("__"):
                        var = v
        if rng is None or var is None or not rng.c:
            return None
        import re
        ty = (strip(rng.c[0]).type or "")
        m = re.search(r"^[^\[]*\[(\d+)\]", ty) or re.search(r"^std::array<.*, (\d+)>$", clean(ty))
        if not m or int(m.group(1)) > self.unrolled:
            return None
        p = self.path(rng.c[0], fr)
        if p is None:
            return None
        uid = var.x[1]

        def bind(x):
            if x is None:
                fr.alias.pop(uid, None)
            else:
                fr.alias[uid] = p + (("i", x),)
        return bind, list(range(int(m.group(1))))
