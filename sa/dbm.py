"""Difference-bound dataflow over integer variables and container sizes.

Terms are variables ("v", uid/name key), sizes ("n", container key), their values on entry ("0", term) and the constant Z.
A state is a closed difference-bound matrix (a - b <= c) held sparsely, or None for an unreachable point. Calls are
replaced by the callee's own summary: the join of its exit states over the terms its caller knows, partitioned by the
truth of a returned bool, so a check moved into a helper or a local lambda counts like the inline one."""
from .flow import strip
from .must import edge_cond
from .facts import last_name

Z = ("z",)
GROW = {"push_back": 1, "emplace_back": 1}
GROWN = ("insert", "emplace")
SHRINK = {"pop_back": -1}
DROP = ("erase", "assign", "swap", "operator=", "shrink_to_fit")
INF = None


class D(object):
    __slots__ = ("m",)

    def __init__(self, m=None):
        self.m = m if m is not None else {}

    def copy(self):
        return D(dict(self.m))

    def get(self, a, b):
        if a == b:
            return 0
        return self.m.get((a, b))

    def vars(self):
        s = set()
        for a, b in self.m:
            s.add(a)
            s.add(b)
        return s

    def add(self, a, b, c):
        """a - b <= c; False when that is contradictory"""
        if a == b:
            return c >= 0
        o = self.m.get((a, b))
        if o is not None and o <= c:
            return True
        r = self.get(b, a)
        if r is not None and r + c < 0:
            return False
        pre = [(x, w) for (x, y), w in self.m.items() if y == a] + [(a, 0)]
        post = [(y, w) for (x, y), w in self.m.items() if x == b] + [(b, 0)]
        for x, w in pre:
            for y, v in post:
                if x == y:
                    if w + c + v < 0:
                        return False
                    continue
                k = w + c + v
                o = self.m.get((x, y))
                if o is None or k < o:
                    self.m[(x, y)] = k
        return True

    def forget(self, a):
        self.m = {k: v for k, v in self.m.items() if a not in k}

    def shift(self, a, c):
        m = {}
        for (x, y), w in self.m.items():
            if x == a:
                w += c
            elif y == a:
                w -= c
            m[(x, y)] = w
        self.m = m

    def grow(self, a):
        """a becomes some value >= a"""
        self.m = {k: v for k, v in self.m.items() if k[0] != a}

    def shrink(self, a):
        self.m = {k: v for k, v in self.m.items() if k[1] != a}

    def assign(self, a, lin):
        if lin is None:
            self.forget(a)
            return
        b, c = lin
        if a == b:
            if c:
                self.shift(a, c)
            return
        self.forget(a)
        self.add(a, b, c)
        self.add(b, a, -c)

    def rename(self, mp):
        """keep only terms of mp, renamed"""
        m = {}
        for (x, y), w in self.m.items():
            if x in mp and y in mp:
                k = (mp[x], mp[y])
                if k[0] != k[1] and (k not in m or m[k] > w):
                    m[k] = w
        return D(m)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    m = {}
    for k, v in a.m.items():
        w = b.m.get(k)
        if w is not None:
            m[k] = max(v, w)
    return D(m)


def widen(old, new):
    if old is None:
        return new
    if new is None:
        return old
    m = {}
    for k, v in old.m.items():
        w = new.m.get(k)
        if w is not None and w <= v:
            m[k] = v
        elif w is not None and v < -1 <= w:
            m[k] = -1
        elif w is not None and v < 0 <= w:
            m[k] = 0
    return D(m)


class Sizes(object):
    """One analysis instance: `isint(type)`, `iscont(type)` say which variables and containers are tracked."""

    def __init__(self, prog, isint, iscont, on_access=None, entry=None, maxdepth=6):
        self.prog = prog
        self.isint, self.iscont = isint, iscont
        self.on_access = on_access      # (fn, node, state, container term, linear form, what)
        self.entry_hook = entry
        self.sums = {}
        self.busy = set()
        self.maxdepth = maxdepth

    # ---- terms
    def term(self, fn, n, size=False, ctxmap=None):
        n = strip(n)
        while n is not None and n.k in ("un",) and n.x[0] in ("*", "&"):
            n = strip(n.c[0])
        t = None
        if n is None:
            return None
        if n.k == "ref" and n.x[0] in ("v", "p", "s", "c"):
            t = self.var(fn, n)
        elif n.k == "mem":
            b = strip(n.c[0]) if n.c else None
            if b is None or b.k == "this":
                t = ("f", n.x[0])
            else:
                bt = self.term(fn, b)
                if bt is not None:
                    al = self.alias(fn).get((bt, n.x[0]))
                    t = al if al is not None else ("m", bt, n.x[0])
        elif n.k in ("mcall", "call") and self.getter(n) is not None:
            g = self.getter(n)
            if n.k == "mcall" and n.c:
                r = strip(n.c[0])
                t = ("f", g) if r.k == "this" else ("m", self.term(fn, r), g)
        if t is None:
            return None
        return ("n", t) if size else ("v", t)

    def getter(self, n):
        ts = self.prog.targets(n)
        if len(ts) != 1:
            return None
        f = next(iter(ts))
        if f.params or f.body is None or len(f.body.c) != 1 or f.body.c[0].k != "return" or not f.body.c[0].c:
            return None
        r = strip(f.body.c[0].c[0])
        if r is not None and r.k == "mem" and r.c and strip(r.c[0]).k == "this":
            return r.x[0]
        return None

    def var(self, fn, n):
        name, uid = n.x[1], n.x[2]
        if n.x[0] == "v":
            decl = self.decls(fn)
            if uid in decl:
                d = decl[uid]
                # a reference variable is another name of what it is bound to
                if d is not None and "&" in (d.type or "") and d.c:
                    t = self.term(fn, d.c[0])
                    if t is not None:
                        return t[1]
                return ("l", fn.key, uid)
            if fn.islambda:
                return ("cap", name)
            return ("l", fn.key, uid)
        if n.x[0] == "p":
            if fn.islambda and not (uid < len(fn.params) and fn.params[uid][0] == name):
                return ("cap", name)
            return ("p", uid)
        if n.x[0] == "c":
            return ("cap", name)
        return ("s", name)

    def decls(self, fn):
        d = getattr(fn, "_dbm_decl", None)
        if d is None:
            d = {}
            for x in fn.walk():
                if x.k == "var":
                    d[x.x[1]] = x
            fn._dbm_decl = d
        return d

    def alias(self, fn):
        """(object variable, field) -> what the reference field was bound to by the constructor"""
        d = getattr(fn, "_dbm_alias", None)
        if d is None:
            d = fn._dbm_alias = {}
            for x in fn.walk():
                if x.k != "var" or not x.c:
                    continue
                c = strip(x.c[0])
                if c is None or c.k != "ctor":
                    continue
                for f in self.prog.targets(c):
                    for i in f.root.c:
                        if i.k == "init" and i.c:
                            v = strip(i.c[0])
                            if v is not None and v.k == "ref" and v.x[0] == "p" and v.x[2] < len(c.c):
                                fld = last_name(i.x[0] if isinstance(i.x, list) else i.x)
                                fl = [q for q in (self.prog.C.get(f.cls) or {}).get("fields", []) if q[0] == fld]
                                if fl and "&" in str(fl[0][1]):
                                    t = self.term(fn, c.c[v.x[2]])
                                    if t is not None:
                                        d[(("v", ("l", fn.key, x.x[1])), fld)] = t[1]
        return d

    # ---- linear forms
    def lin(self, fn, n):
        n = strip(n)
        if n is None:
            return None
        if n.k in ("icast", "cast", "scast", "ccast", "fcast") and n.c:
            return self.lin(fn, n.c[-1])
        if n.k == "int":
            return (Z, n.x[0])
        if n.k in ("ref", "mem"):
            if not self.isint(n.type or ""):
                return None
            t = self.term(fn, n)
            return (t, 0) if t is not None else None
        if n.k == "un" and n.x[0] in ("p++", "p--"):
            t = self.lin(fn, n.c[0])
            return (t[0], t[1] + (-1 if n.x[0] == "p++" else 1)) if t else None
        if n.k == "un" and n.x[0] in ("++", "--"):
            return self.lin(fn, n.c[0])
        if n.k == "un" and n.x[0] == "-":
            t = self.lin(fn, n.c[0])
            return (Z, -t[1]) if t and t[0] == Z else None
        if n.k == "bin" and n.x[0] in ("=", "+=", "-="):
            return self.lin(fn, n.c[0])
        if n.k == "bin" and n.x[0] in ("+", "-"):
            a, b = self.lin(fn, n.c[0]), self.lin(fn, n.c[1])
            if a is None or b is None:
                return None
            if n.x[0] == "+":
                if b[0] == Z:
                    return (a[0], a[1] + b[1])
                if a[0] == Z:
                    return (b[0], a[1] + b[1])
                return None
            if b[0] == Z:
                return (a[0], a[1] - b[1])
            if a[0] == b[0]:
                return (Z, a[1] - b[1])
            return None
        if n.k == "mcall" and n.mname in ("size", "length") and n.c and self.iscont(n.c[0].type or ""):
            t = self.term(fn, n.c[0], size=True)
            return (t, 0) if t is not None else None
        if n.k == "call" and (n.mname or "") in ("move", "forward") and n.c:
            return self.lin(fn, n.c[-1])
        return None

    # ---- conditions
    def refine(self, fn, st, n, truth):
        """state after `n` evaluated to `truth`"""
        if st is None:
            return None
        n = strip(n)
        while n is not None and n.k in ("icast", "cast", "scast") and n.c:
            n = strip(n.c[-1])
        if n is None:
            return st
        if n.k == "bool":
            return st if bool(n.x[0]) == truth else None
        if n.k == "un" and n.x[0] == "!":
            return self.refine(fn, st, n.c[0], not truth)
        if n.k == "bin" and n.x[0] in ("&&", "||"):
            if (n.x[0] == "&&") == truth:
                return self.refine(fn, self.refine(fn, st, n.c[0], truth), n.c[1], truth)
            a = self.refine(fn, st.copy(), n.c[0], truth)
            b = self.refine(fn, st.copy(), n.c[1], truth)
            return join(a, b)
        if n.k == "mcall" and n.mname == "empty" and n.c and self.iscont(n.c[0].type or ""):
            t = self.term(fn, n.c[0], size=True)
            if t is None:
                return st
            st = st.copy()
            ok = st.add(t, Z, 0) if truth else st.add(Z, t, -1)
            return st if ok else None
        if n.k == "bin" and n.x[0] in ("<", "<=", ">", ">=", "==", "!="):
            a, b = self.lin(fn, n.c[0]), self.lin(fn, n.c[1])
            if a is None or b is None:
                return st
            op = n.x[0]
            if not truth:
                op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
            if op in (">", ">="):
                a, b, op = b, a, {">": "<", ">=": "<="}[op]
            st = st.copy()
            k = b[1] - a[1]
            ok = True
            if op == "<":
                ok = st.add(a[0], b[0], k - 1)
            elif op == "<=":
                ok = st.add(a[0], b[0], k)
            elif op == "==":
                ok = st.add(a[0], b[0], k) and st.add(b[0], a[0], -k)
            else:
                u, l = st.get(a[0], b[0]), st.get(b[0], a[0])
                if u is not None and u == k:
                    ok = st.add(a[0], b[0], k - 1)
                if ok and l is not None and l == -k:
                    ok = st.add(b[0], a[0], -k - 1)
            return st if ok else None
        if n.is_call():
            part = getattr(self, "_lastcall", {}).get(n.id)
            if part is not None and part[0] is fn:
                # the partition by the returned truth value, applied to the state before the call
                return self.apply(fn, part[1].copy(), n, part[2], truth)
        return st

    # ---- calls
    def interesting(self, f):
        for p in f.params:
            if self.isint(p[1]) or self.iscont(p[1]):
                return True
        return f.islambda or f.cls is not None

    def bindings(self, fn, n, f):
        """callee term -> caller term (or linear form for values)"""
        refs, vals = {}, {}
        args = n.args() if n.is_call() else n.c
        recv = None
        if n.k in ("mcall",):
            recv = n.c[0] if n.c else None
        if f.islambda:
            if n.k == "ocall":
                args = n.c[1:]
            # captured names
            for x in self.caps(fn, f):
                t = self.capterm(fn, x)
                if t is not None:
                    refs[("v", ("cap", x))] = ("v", t)
                    refs[("n", ("cap", x))] = ("n", t)
        elif f.cls is not None and not f.static:
            if recv is not None:
                r = strip(recv)
                for fl in self.fields(f):
                    if r.k == "this":
                        t = ("f", fl)
                    else:
                        b = self.term(fn, r)
                        if b is None:
                            continue
                        t = self.alias(fn).get((b, fl)) or ("m", b, fl)
                    refs[("v", ("f", fl))] = ("v", t)
                    refs[("n", ("f", fl))] = ("n", t)
        for i, p in enumerate(f.params):
            if i >= len(args) or args[i] is None:
                break
            ty = p[1]
            if "&" in ty or "*" in ty:
                t = self.term(fn, args[i])
                if t is not None:
                    refs[("v", ("p", i))] = ("v", t[1])
                    refs[("n", ("p", i))] = ("n", t[1])
                    continue
            if self.isint(ty):
                l = self.lin(fn, args[i])
                if l is not None:
                    vals[("v", ("p", i))] = l
        return refs, vals

    def fields(self, f):
        s = getattr(f, "_dbm_fields", None)
        if s is None:
            s = f._dbm_fields = set()
            for x in f.walk():
                if x.k == "mem" and x.c and strip(x.c[0]).k == "this":
                    s.add(x.x[0])
        return s

    def caps(self, fn, f):
        s = getattr(f, "_dbm_caps", None)
        if s is None:
            s = f._dbm_caps = {x.x[1] for x in f.walk() if x.k == "ref" and x.x[0] in ("v", "p", "c") and
                               self.var(f, x)[0] == "cap"}
        return s

    def capterm(self, fn, name):
        d = getattr(fn, "_dbm_names", None)
        if d is None:
            d = fn._dbm_names = {}
            for x in fn.walk():
                if x.k == "ref" and x.x[0] in ("v", "p", "c"):
                    d.setdefault(x.x[1], set()).add(self.var(fn, x))
        s = d.get(name)
        return next(iter(s)) if s and len(s) == 1 else None

    def targets(self, n):
        return [f for f in self.prog.targets(n)]

    def _lambda(self, fn, n):
        """lambda called through a local variable"""
        if n.k != "ocall" or not n.c:
            return None
        r = strip(n.c[0])
        if r.k == "ref" and r.x[0] == "v":
            d = self.decls(fn).get(r.x[2])
            if d is not None and d.c:
                l = strip(d.c[0])
                while l is not None and l.k == "ctor" and l.c:
                    l = strip(l.c[0])
                if l is not None and l.k == "lambda":
                    return self.prog.F.get(l.x[0])
        return None

    def call(self, fn, st, n):
        """effect of a call on the state"""
        m = n.mname or ""
        obj = n.c[0] if n.k in ("mcall", "ocall") and n.c else None
        if obj is not None and self.iscont(obj.type or "") and not self._incls(n):
            return self.container(fn, st, n, obj, m)
        lam = self._lambda(fn, n)
        ts = [lam] if lam is not None else [f for f in self.targets(n)]
        ts = [f for f in ts if f is not None]
        if not ts:
            # unknown code may change what it is given by reference
            self.escape(fn, st, n)
            return st
        if not any(self.interesting(f) for f in ts):
            return st
        if not hasattr(self, "_lastcall"):
            self._lastcall = {}
        self._lastcall[n.id] = (fn, st.copy(), ts)
        return self.apply(fn, st, n, ts, None)

    def _incls(self, n):
        return False

    def escape(self, fn, st, n):
        tys = self.ptypes(n)
        for i, a in enumerate(n.c if n.k in ("ctor",) else n.args()):
            a0 = strip(a)
            if a0 is None:
                continue
            byref = a0.k == "un" and a0.x[0] == "&"
            ty = tys[i] if tys is not None and i < len(tys) else ""
            if byref or ("&" in ty and not ty.startswith("const ") and "&&" not in ty):
                t = self.term(fn, a0)
                if t is not None:
                    st.forget(("v", t[1]))
                    st.forget(("n", t[1]))

    def ptypes(self, n):
        k = n.callee() if callable(getattr(n, "callee", None)) else None
        k = k if isinstance(k, str) else (n.x[0] if isinstance(n.x, list) and n.x else "")
        if not isinstance(k, str) or "(" not in k:
            return None
        d, out, cur = 0, [], ""
        i = len(k) - 1
        while i >= 0 and k[i] != ")":
            i -= 1
        e, d = i, 0
        while i >= 0:
            if k[i] == ")":
                d += 1
            elif k[i] == "(":
                d -= 1
                if d == 0:
                    break
            i -= 1
        d = 0
        for ch in k[i + 1:e]:
            if ch in "<(":
                d += 1
            elif ch in ">)":
                d -= 1
            if ch == "," and d == 0:
                out.append(cur.strip())
                cur = ""
            else:
                cur += ch
        if cur.strip():
            out.append(cur.strip())
        return out

    def apply(self, fn, st, n, ts, truth):
        out = None
        for f in ts:
            refs, vals = self.bindings(fn, n, f)
            s = self.summary(f, self.project(st, refs, vals))
            if s is None:
                r = st.copy()
                self.escape_for(fn, r, n, f)
                out = join(out, r)
                continue
            ex = s[truth] if truth is not None else join(s[True], s[False])
            if ex is None:
                continue
            r = st.copy()
            # fresh names for the values before the call
            old = {}
            for ct, t in refs.items():
                if t not in old:
                    old[t] = ("old", t)
                    r.assign(("old", t), (t, 0))
            for t in old:
                if t in s["mod"](refs):
                    r.forget(t)
            ok = True
            tmp = {}
            for ct, l in vals.items():
                tm = ("arg", ct)
                r.assign(tm, l if l[0] not in old or l[0] not in s["mod"](refs) else (old[l[0]], l[1]))
                tmp[ct] = tm
            mp = {Z: Z}
            for ct, t in refs.items():
                mp[ct] = t
                mp[("0", ct)] = old[t]
            for ct, t in tmp.items():
                mp[("0", ct)] = t
            for (a, b), w in ex.m.items():
                if a in mp and b in mp:
                    if not r.add(mp[a], mp[b], w):
                        ok = False
                        break
            if not ok:
                continue
            for t in old.values():
                r.forget(t)
            for t in tmp.values():
                r.forget(t)
            out = join(out, r)
        return out

    def project(self, st, refs, vals):
        """what the caller knows, over the callee's terms"""
        s = st
        mp = {Z: Z}
        many = {}
        for ct, t in refs.items():
            many.setdefault(t, []).append(ct)
        if vals:
            s = st.copy()
            for ct, l in vals.items():
                s.assign(("arg", ct), l)
                many.setdefault(("arg", ct), []).append(ct)
        for t, cts in many.items():
            mp[t] = cts[0]
        d = s.rename(mp)
        for t, cts in many.items():
            for c in cts[1:]:
                d.add(c, cts[0], 0)
                d.add(cts[0], c, 0)
        return d

    def escape_for(self, fn, st, n, f):
        refs, _ = self.bindings(fn, n, f)
        for ct, t in refs.items():
            st.forget(t)

    def container(self, fn, st, n, obj, m):
        t = self.term(fn, obj, size=True)
        if t is None:
            return st
        if m in GROW:
            st.shift(t, GROW[m])
        elif m in SHRINK:
            st.shift(t, SHRINK[m])
        elif m in GROWN:
            st.grow(t)
        elif m == "clear":
            st.assign(t, (Z, 0))
        elif m == "resize":
            a = n.args()
            st.assign(t, self.lin(fn, a[0]) if a else None)
        elif m == "erase":
            st.shrink(t)
        elif m == "operator=":
            r = n.c[1] if len(n.c) > 1 else None
            st.assign(t, self.sizeof(fn, r))
        elif m in DROP:
            st.forget(t)
        return st

    def sizeof(self, fn, e):
        """linear form for the size of a container-valued expression"""
        e = strip(e)
        if e is None:
            return None
        if e.k == "ctor" and len(e.c) == 1 and self.iscont(e.c[0].type or ""):
            return self.sizeof(fn, e.c[0])
        if e.k == "call" and (e.mname or "") == "move" and e.c:
            return self.sizeof(fn, e.c[-1])
        if e.k in ("ref", "mem"):
            t = self.term(fn, e, size=True)
            return (t, 0) if t is not None else None
        if e.k == "ctor":
            args = [a for a in e.c if a is not None and a.k != "darg"]
            if not args:
                return (Z, 0)
            for a in args:
                il = strip(a)
                while il is not None and il.k not in ("ilist", "initlist") and il.k in ("icast", "cast", "ctor", "silist", "stdinit") and len(il.c) == 1:
                    il = strip(il.c[0])
                if il is not None and il.k in ("ilist", "initlist"):
                    return (Z, len(il.c))
            if args and self.isint(args[0].type or "") and args[0].k != "str":
                return self.lin(fn, args[0])
        if e.k in ("ilist", "initlist"):
            return (Z, len(e.c))
        return None

    # ---- statements
    def step(self, fn, st, n):
        if st is None:
            return None
        k = n.k
        if k == "un" and n.x[0] in ("++", "p++", "--", "p--"):
            if self.isint(n.c[0].type or ""):
                t = self.term(fn, n.c[0])
                if t is not None:
                    st.shift(t, 1 if "++" in n.x[0] else -1)
            return st
        if k == "bin" and n.x[0] in ("=", "+=", "-="):
            if self.isint(n.c[0].type or ""):
                t = self.term(fn, n.c[0])
                if t is not None:
                    l = self.lin(fn, n.c[1])
                    if n.x[0] != "=":
                        l = (t, l[1] if n.x[0] == "+=" else -l[1]) if l is not None and l[0] == Z else None
                    st.assign(t, l)
            return st
        if k == "bin" and n.x[0].endswith("=") and n.x[0] not in ("==", "!=", "<=", ">="):
            t = self.term(fn, n.c[0])
            if t is not None:
                st.forget(t)
            return st
        if k == "decl":
            for v in n.c:
                if v.k != "var":
                    continue
                ty = v.type or ""
                t = ("l", fn.key, v.x[1])
                if "&" in ty:
                    continue
                if self.isint(ty):
                    st.assign(("v", t), self.lin(fn, v.c[0]) if v.c else None)
                elif self.iscont(ty):
                    st.assign(("n", t), self.sizeof(fn, v.c[0]) if v.c else (Z, 0))
            return st
        if k in ("ocall", "mcall", "bin", "idx", "index", "sub"):
            self.access(fn, n, st)
        if n.is_call():
            return self.call(fn, st, n)
        return st

    def access(self, fn, n, st):
        if self.on_access is None:
            return
        if n.k == "ocall" and n.mname == "operator[]" and self.iscont(n.c[0].type or ""):
            self.on_access(fn, n, st, self.term(fn, n.c[0], size=True), self.lin(fn, n.c[1]), "index")
        elif n.k == "mcall" and n.mname in ("back", "front", "pop_back") and n.c and self.iscont(n.c[0].type or ""):
            self.on_access(fn, n, st, self.term(fn, n.c[0], size=True), (Z, 0), n.mname)

    # ---- functions
    def run(self, fn, start=None, report=False):
        bl = fn.cfg
        if bl is None:
            return None
        init = start if start is not None else D()
        ins = {fn.entry: init}
        cnt = {}
        work = [fn.entry]
        order = {b: i for i, b in enumerate(sorted(bl, reverse=True))}
        saved, self.on_access = self.on_access, None
        heads = self._heads(fn)
        while work:
            work.sort(key=lambda b: order[b])
            b = work.pop(0)
            outs = self.block(fn, b, ins[b].copy() if ins[b] is not None else None)
            for s, o in outs:
                if o is None or s < 0:
                    continue
                o = D({k: v for k, v in o.m.items() if abs(v) < 64})
                old = ins.get(s)
                new = join(old, o) if s in ins else o
                if old is not None and new.m == old.m:
                    continue
                cnt[s] = cnt.get(s, 0) + 1
                if old is not None and cnt[s] > (3 if s in heads else 12):
                    new = widen(old, new)
                    if new.m == old.m:
                        continue
                ins[s] = new
                if s not in work:
                    work.append(s)
        self.on_access = saved
        if report and self.on_access is not None:
            for b in sorted(ins, reverse=True):
                if ins[b] is not None:
                    self.block(fn, b, ins[b].copy())
        return ins

    def _heads(self, fn):
        h = getattr(fn, "_dbm_heads", None)
        if h is None:
            h, color = set(), {}
            st = [(fn.entry, iter(fn.cfg[fn.entry].succs))]
            color[fn.entry] = 1
            while st:
                b, it = st[-1]
                for s in it:
                    if s < 0:
                        continue
                    if color.get(s) == 1:
                        h.add(s)
                    elif s not in color:
                        color[s] = 1
                        st.append((s, iter(fn.cfg[s].succs)))
                        break
                else:
                    color[b] = 2
                    st.pop()
            fn._dbm_heads = h
        return h

    def block(self, fn, b, st, upto=None):
        blk = fn.cfg[b]
        done = set()
        for el in blk.elems:
            if isinstance(el, list) or el in done:
                continue
            done.add(el)
            n = fn.nodes[el]
            if n.k == "throw":
                return []
            st = self.step(fn, st, n)
            if st is None:
                return []
        outs = []
        for i, s in enumerate(blk.succs):
            ec = edge_cond(fn, blk, i)
            if ec is None:
                outs.append((s, st.copy()))
            else:
                outs.append((s, self.refine(fn, st.copy(), ec[0], ec[1])))
        return outs

    def summary(self, f, entry=None):
        """{True: D, False: D, 'mod': ...} over parameters, fields and captured names and their entry values"""
        key = (f.key, frozenset(entry.m.items()) if entry is not None else None)
        if key in self.sums:
            return self.sums[key]
        if f.cfg is None or f.key in self.busy or len(self.busy) >= self.maxdepth or len(f.cfg) > 600:
            return None
        self.busy.add(f.key)
        try:
            ext = set()
            for i, p in enumerate(f.params):
                if self.isint(p[1]):
                    ext.add(("v", ("p", i)))
                if self.iscont(p[1]):
                    ext.add(("n", ("p", i)))
            for x in f.walk():
                if x.k in ("ref", "mem"):
                    ty = x.type or ""
                    if self.isint(ty) or self.iscont(ty):
                        t = self.term(f, x)
                        if t is not None and t[1][0] in ("f", "cap", "s"):
                            ext.add(("v" if self.isint(ty) else "n", t[1]))
            if not ext:
                r = {True: D(), False: D(), "mod": lambda refs: set()}
                self.sums[key] = r
                return r
            st = entry.rename({t: t for t in list(ext) + [Z]}) if entry is not None else D()
            for t in ext:
                st.add(t, ("0", t), 0)
                st.add(("0", t), t, 0)
            saved, self.on_access = self.on_access, None
            ins = self.run(f, st)
            res = {True: None, False: None}
            keep = set(ext) | {("0", t) for t in ext} | {Z}
            for b, i in ins.items():
                if i is None or f.exit not in f.cfg[b].succs:
                    continue
                s, ret, thrown = i.copy(), None, False
                done = set()
                for el in f.cfg[b].elems:
                    if isinstance(el, list) or el in done:
                        continue
                    done.add(el)
                    n = f.nodes[el]
                    if n.k == "throw":
                        thrown = True
                        break
                    if n.k == "return":
                        ret = n
                    s = self.step(f, s, n)
                    if s is None:
                        break
                if thrown or s is None:
                    continue
                for truth in (True, False):
                    r = s.copy()
                    if ret is not None and ret.c and (f.ret or "") == "bool":
                        r = self.refine(f, r, ret.c[0], truth)
                    if r is not None:
                        res[truth] = join(res[truth], r.rename({k: k for k in keep}))
            self.on_access = saved
            mod = set()
            for t in ext:
                for r in (res[True], res[False]):
                    if r is not None and not (r.get(t, ("0", t)) == 0 and r.get(("0", t), t) == 0):
                        mod.add(t)
            byval = {t for t in ext if t[1][0] == "p" and "&" not in f.params[t[1][1]][1] and
                     "*" not in f.params[t[1][1]][1]}
            res["mod"] = lambda refs, mod=mod - byval: {refs[t] for t in mod if t in refs}
            self.sums[key] = res
            return res
        finally:
            self.busy.discard(f.key)
