"""The table of built-in functions: which evaluator is registered for which name and argument types.

The registration function is interpreted statement by statement (type vectors, their updates, constant loops)."""
import re

from .facts import AnalysisError, last_name
from .flow import strip


class Ty(object):
    __slots__ = ("ti", "bt", "st", "ot", "dim")

    def __init__(self, ti="PAR", bt="UNK", st="PLAIN", ot="PRESENT", dim=0):
        self.ti, self.bt, self.st, self.ot, self.dim = ti, bt, st, ot, dim

    def copy(self):
        return Ty(self.ti, self.bt, self.st, self.ot, self.dim)

    def key(self):
        return (self.ti, self.bt, self.st, self.ot, self.dim)

    def __repr__(self):
        s = ("var " if self.ti == "VAR" else "") + ("opt " if self.ot == "OPTIONAL" else "") + \
            ("set of " if self.st == "SET" else "") + self.bt.lower()
        return ("array[%s] of " % self.dim if self.dim else "") + s


FACT = re.compile(r"^(opt)?(var|par)?(set)?(int|bool|float|string|top|bot|ann|enumint|enum)$")


class Reg(object):
    def __init__(self, name, tys, fn, ret, node):
        self.name, self.tys, self.fn, self.ret, self.node = name, tys, fn, ret, node

    def __repr__(self):
        return "%s(%s)" % (self.name, ", ".join(map(repr, self.tys)))


class Table(object):
    def __init__(self, prog, fn):
        self.prog, self.fn = prog, fn
        self.regs = []
        self.skipped = []
        self.idnames = None
        self.block(fn.body, {})

    # -- values
    def const(self, n, env):
        n = strip(n)
        if n.k == "darg":
            return self.const(n.c[0], env)
        if n.k in ("int", "bool"):
            return n.x[0]
        if n.k == "un" and n.x[0] == "-":
            v = self.const(n.c[0], env)
            return None if v is None else -v
        if n.k == "ref" and n.x[0] == "v":
            v = env.get(n.x[2])
            return v if isinstance(v, int) else None
        if n.k == "ref" and n.x[0] == "e" and len(n.x) > 3:
            return n.x[3]
        return None

    def ty(self, n, env):
        n = strip(n)
        while n.k in ("cast", "icast") and n.c:
            n = strip(n.c[0])
        if n.k == "ctor" and last_name(n.cq or "") == "Type" and len(n.c) == 1:
            return self.ty(n.c[0], env)
        if n.k == "ctor" and (n.cq or "").endswith("Type::Type") and not n.c:
            return Ty()
        if n.k == "call" and (n.cq or "").startswith("MiniZinc::Type::"):
            m = FACT.match(last_name(n.cq))
            if last_name(n.cq) == "mkAny":
                dim = self.const(n.c[-1], env) if n.c else 0
                return None if dim is None else Ty("PAR", "TOP", "PLAIN", "OPTIONAL", dim)
            if m:
                dim = self.const(n.c[-1], env) if n.c else 0
                if dim is None:
                    return None
                b = m.group(4)
                ti = "VAR" if m.group(2) == "var" else "PAR"
                return Ty(ti, "INT" if b.startswith("enum") else b.upper(), "SET" if m.group(3) else "PLAIN",
                          "OPTIONAL" if m.group(1) else "PRESENT", dim)
        if n.k == "ocall" and last_name(n.cq) == "operator=":
            v = self.ty(n.c[1], env)
            if v is not None:
                self.assign(n.c[0], v, env)
            return v
        r = self.place(n, env)
        if r is not None:
            v = r[0][r[1]]
            if isinstance(v, Ty):
                return v.copy()
        return None

    def place(self, n, env):
        n = strip(n)
        if n.k == "ref" and n.x[0] == "v" and n.x[2] in env:
            return (env, n.x[2])
        if n.k == "ocall" and last_name(n.cq) == "operator[]" or n.k == "mcall" and n.mname == "at":
            b = strip(n.c[0])
            i = self.const(n.c[1], env)
            if b.k == "ref" and b.x[0] == "v" and isinstance(env.get(b.x[2]), list) and i is not None and \
                    0 <= i < len(env[b.x[2]]):
                return (env[b.x[2]], i)
        return None

    def assign(self, l, v, env):
        r = self.place(l, env)
        if r is None:
            raise AnalysisError("registration of built-ins: assignment at line %s not understood" % l.line)
        r[0][r[1]] = v.copy() if isinstance(v, Ty) else v

    def vec(self, n, env):
        n = strip(n)
        while n.k in ("cast", "icast") and n.c:
            n = strip(n.c[0])
        if n.k == "ref" and n.x[0] == "v":
            v = env.get(n.x[2])
            return [t.copy() for t in v] if isinstance(v, list) else None
        if n.k == "ctor" and "vector" in (n.cq or ""):
            a = [c for c in n.c if c.k != "darg"]
            if not a:
                return []
            if len(a) == 1:
                k = self.const(a[0], env)
                if k is not None:
                    return [Ty() for _ in range(k)]
                v = self.vec(a[0], env)
                if v is not None:
                    return v
            if len(a) == 2 and self.const(a[0], env) is not None:
                t = self.ty(a[1], env)
                if t is not None:
                    return [t.copy() for _ in range(self.const(a[0], env))]
        if n.k in ("init", "ilist", "initlist", "silist") or n.k == "ctor":
            for x in n.walk():
                if x is not n and x.k in ("initlist", "init", "ilist"):
                    ts = [self.ty(c, env) for c in x.c]
                    if ts and all(t is not None for t in ts):
                        return ts
            ts = [self.ty(c, env) for c in n.c if c.k != "darg"]
            if ts and all(t is not None for t in ts):
                return ts
        return None

    def name(self, n):
        for x in n.walk():
            if x.k == "str":
                return x.x[0]
        for x in n.walk():
            if x.k == "mem":
                return self.idname(x.x[1])
        return None

    def idname(self, field):
        if self.idnames is None:
            self.idnames = {}
            for f in self.prog.fq("MiniZinc::Constants::Constants"):
                for x in f.walk():
                    if x.k in ("ocall", "bin") and len(x.c) == 2:
                        l, r = strip(x.c[0]), x.c[1]
                        if l.k == "mem":
                            for y in r.walk():
                                if y.k == "str":
                                    self.idnames[l.x[1]] = y.x[0]
                                    break
        return self.idnames.get(field, last_name(field))

    # -- statements
    def block(self, b, env):
        for s in b.c:
            if s is not None:
                self.stmt(s, env)

    def stmt(self, s, env):
        s = strip(s)
        if s.k == "{":
            self.block(s, env)
            return
        if s.k == "decl":
            for v in s.c:
                uid = v.x[1]
                if not v.c:
                    continue
                k = self.const(v.c[0], env)
                if k is not None:
                    env[uid] = int(k)
                    continue
                t = self.ty(v.c[0], env)
                if t is not None:
                    env[uid] = t
                    continue
                w = self.vec(v.c[0], env)
                if w is not None:
                    env[uid] = w
            return
        if s.k == "for":
            init, _, cond, inc, body = (list(s.c) + [None] * 5)[:5]
            if init is not None:
                self.stmt(init, env)
            cond = strip(cond)
            for _ in range(64):
                if cond.k != "bin" or cond.x[0] not in ("<", "<=", "!=", ">", ">="):
                    break
                a, z = self.const(cond.c[0], env), self.const(cond.c[1], env)
                if a is None or z is None:
                    break
                if not {"<": a < z, "<=": a <= z, "!=": a != z, ">": a > z, ">=": a >= z}[cond.x[0]]:
                    return
                self.stmt(body, env)
                i = strip(inc)
                v = strip(i.c[0])
                d = 1 if "++" in str(i.x[0]) else -1 if "--" in str(i.x[0]) else None
                if d is None and i.k == "bin" and i.x[0] == "+=":
                    d = self.const(i.c[1], env)
                if d is None or v.k != "ref":
                    break
                env[v.x[2]] += d
            self.skipped.append(s)
            return
        if s.k == "ocall" and last_name(s.cq) == "operator=":
            t = self.ty(s.c[1], env)
            if t is None:
                w = self.vec(s.c[1], env)
                l = strip(s.c[0])
                if w is not None and l.k == "ref":
                    env[l.x[2]] = w
                    return
                self.skipped.append(s)
                return
            self.assign(s.c[0], t, env)
            return
        if s.k == "mcall" and (s.cq or "").startswith("MiniZinc::Type::"):
            r = self.place(s.c[0], env)
            if r is not None and isinstance(r[0][r[1]], Ty):
                t = r[0][r[1]].copy()
                a = s.c[1]
                m = s.mname
                if m in ("bt", "ti", "st", "ot"):
                    nm = None
                    for x in a.walk():
                        if x.k == "ref" and x.x[0] == "e":
                            nm = last_name(x.x[1]).split("_", 1)[1]
                    if nm:
                        setattr(t, m, nm)
                elif m == "dim":
                    t.dim = self.const(a, env)
                r[0][r[1]] = t
            return
        if s.k == "mcall" and s.mname in ("push_back", "emplace_back"):
            l = strip(s.c[0])
            t = self.ty(s.c[1], env)
            if l.k == "ref" and isinstance(env.get(l.x[2]), list):
                if t is None:
                    self.skipped.append(s)
                    del env[l.x[2]]
                else:
                    env[l.x[2]].append(t)
            return
        if s.k == "call":
            fnref = None
            for c in s.c:
                x = strip(c)
                while x.k in ("cast", "icast", "un") and x.c:
                    x = strip(x.c[0])
                if x.k == "ref" and x.x[0] == "f":
                    fnref = x
            if fnref is not None and len(s.c) >= 5:
                w = None
                for c in s.c:
                    if w is None:
                        w = self.vec(c, env)
                nm = self.name(s.c[2])
                if w is None or nm is None:
                    self.skipped.append(s)
                    return
                tg = self.prog.F.get(fnref.x[2])
                ret = tg.ret if tg is not None else None
                self.regs.append(Reg(nm, w, fnref.x[2], ret, s))
                return
            # a helper that registers part of the table
            for t in self.prog.targets(s):
                if not isinstance(t, str) and t.file == self.fn.file and not t.q.endswith("::rb"):
                    self.block(t.body, {})
                    return
        return


def table(prog):
    fs = prog.fq("MiniZinc::register_builtins")
    if not fs:
        raise AnalysisError("no registration function for built-ins")
    return Table(prog, fs[0])
