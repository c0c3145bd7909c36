"""Field writes in the interprocedural closure of a function, and the sources of written values.

events(prog, root, stop): every assignment to a class member reachable from root (assignments, operator=, member
initialisers, container insertions into a member, element assignments of a member), each with the calling context.

Sources: which fields a value stems from; looks through accessors, parameters, locals, the contents of local
containers (element assignments, push_back, emplace_back, insert), constructors and `identity` functions."""
import re
from .flow import strip, local_defs, Env, bind, canon
from .prov import is_node_ptr

ADDERS = ("push_back", "emplace_back", "push", "emplace", "insert", "push_front", "add", "append", "assign", "resize")


class Event(object):
    __slots__ = ("field", "cls", "obj", "val", "node", "env", "how", "index")

    def __init__(self, field, cls, obj, val, node, env, how, index=None):
        self.field, self.cls, self.obj, self.val, self.node, self.env, self.how, self.index = \
            field, cls, obj, val, node, env, how, index

    def loc(self):
        return self.node.fn.loc(self.node)


def member_target(l):
    """(mem node, index node or None) if l designates a class member or an element of one"""
    l = strip(l)
    idx = None
    while True:
        if l.k == "mem":
            return l, idx
        if l.k == "idx":
            idx = l.c[1]
            l = strip(l.c[0])
        elif l.k == "ocall" and l.mname in ("operator[]",):
            idx = l.c[1]
            l = strip(l.c[0])
        elif l.k == "un" and l.x[0] == "*":
            l = strip(l.c[0])
        else:
            return None, None


def events(prog, root, stop=None, maxdepth=7, env=None):
    out = []
    work = [env or Env(root)]
    seen = set()
    while work:
        env = work.pop()
        fn = env.fn
        for n in fn.nodes:
            k = n.k
            if k == "bin" and n.x[0] in ("=", "|=", "+=") or (k == "ocall" and (n.mname == "operator=") and len(n.c) == 2):
                m, idx = member_target(n.c[0])
                if m is not None:
                    out.append(Event(m.x[1], fn.cls, m.c[0], n.c[1], n, env, "elem" if idx is not None else "assign", idx))
                elif k == "bin":
                    # assignment through a reference-returning accessor or a pointer to an object is not a member write here
                    pass
            elif k == "init" and n.c:
                q = n.x[0]
                if not q.startswith("<base>"):
                    out.append(Event(q, fn.cls, None, n.c[0], n, env, "init"))
            elif k == "mcall":
                last = n.mname
                if last in ADDERS and len(n.c) > 1:
                    m, idx = member_target(n.c[0])
                    if m is not None and n.callee not in prog.F:
                        for a in n.c[1:]:
                            out.append(Event(m.x[1], fn.cls, m.c[0], a, n, env, "add", idx))
            if k in ("mcall", "call", "ocall", "ctor"):
                for t in prog.targets(n):
                    if t.defaulted or t.key in env.chain() or env.depth >= maxdepth:
                        continue
                    if stop is not None and stop(t, env):
                        continue
                    key = (t.key, n.id, env.uid)
                    if key in seen:
                        continue
                    seen.add(key)
                    work.append(bind(prog, env, n, t))
            elif k == "lambda":
                t = prog.F.get(n.x[0])
                if t is not None and t.key not in env.chain():
                    work.append(Env(t, {}, env.this, env, n))
    return out


def contents(fn, varid):
    """(value node, index node or None, site) of everything stored into local container varid in fn (and its lambdas)"""
    d = getattr(fn, "_contents", None)
    if d is None:
        d = {}
        fns = [fn]
        for n in fn.nodes:
            if n.k == "lambda":
                g = fn.prog.F.get(n.x[0])
                if g is not None:
                    fns.append(g)
        for f in fns:
            for n in f.nodes:
                if n.k == "bin" and n.x[0] == "=" or (n.k == "ocall" and (n.mname == "operator=") and len(n.c) == 2):
                    l = strip(n.c[0])
                    idx = None
                    dee = False
                    while l.k in ("idx",) or (l.k == "ocall" and l.mname in ("operator[]", "operator*")) or \
                            l.k == "mem" or (l.k == "un" and l.x[0] == "*") or \
                            (l.k == "mcall" and l.mname in ("at", "back", "front")):
                        if l.k == "idx" or (l.k == "ocall" and (l.mname == "operator[]")):
                            if idx is None:
                                idx = l.c[1]
                        elif l.k == "mcall" and l.cq.endswith("::at") and len(l.c) > 1:
                            idx = l.c[1]
                        dee = True
                        l = strip(l.c[0])
                    if dee and l.k == "ref" and l.x[0] in ("v", "p", "s"):
                        d.setdefault(l.x[2], []).append((n.c[1], idx, n))
                elif n.k == "mcall" and n.mname in ADDERS:
                    l = strip(n.c[0])
                    while l.k == "mem" or (l.k == "ocall" and (l.mname == "operator[]")):
                        l = strip(l.c[0])
                    if l.k == "ref" and l.x[0] in ("v", "p", "s"):
                        for a in n.c[1:]:
                            d.setdefault(l.x[2], []).append((a, None, n))
        fn._contents = d
    return d.get(varid, ())


class Sources(object):
    """identity(callee Function or cq) -> list of argument indices whose value is passed through, or None"""

    def __init__(self, prog, identity=None, stop_nodes=True, maxdepth=9):
        self.prog = prog
        self.identity = identity or (lambda f, cq: None)
        self.stop_nodes = stop_nodes
        self.skip_contents = None
        self.maxdepth = maxdepth

    def of(self, node, env):
        self.out = set()
        self.seen = set()
        self.leaves = []
        self.elems = []   # (index node, env, field) of element reads on the way
        self.sites = []   # nodes of container stores passed through
        self.go(node, env, 0, None)
        return self.out

    def ret(self, f, n, env, d, idx):
        e2 = bind(self.prog, env, n, f)
        for r in f.nodes:
            if r.k == "return" and r.c:
                self.go(r.c[0], e2, d + 1, idx)

    def go(self, n, env, d, idx):
        prog = self.prog
        n = strip(n)
        key = (n.fn.key, n.id, env.uid)
        if key in self.seen or d > 120:
            return
        self.seen.add(key)
        k = n.k
        if k == "mem":
            f = n.x[1]
            cls = env.fn.cls if strip(n.c[0]).k == "this" else None
            self.out.add((f, cls) if f.startswith("MiniZinc::ASTNode::_") else (f, None))
            if idx is not None:
                self.elems.append((idx[0], idx[1], f))
            if self.stop_nodes and n.x[2] and is_node_ptr(prog, n.c[0].type or ""):
                return
            self.go(n.c[0], env, d + 1, idx)
        elif k == "ref":
            kind = n.x[0]
            if kind in ("v", "s", "p"):
                bound = False
                if kind == "p" and n.x[2] in env.args:
                    a, e2 = env.args[n.x[2]]
                    self.go(a, e2, d + 1, idx)
                    bound = True
                for x in local_defs(n.fn).get(n.x[2], ()):
                    self.go(x, env, d + 1, idx)
                    bound = True
                for x, i, site in (() if self.skip_contents is not None and self.skip_contents(n.fn, n.x[2])
                                   else contents(n.fn, n.x[2])):
                    self.sites.append((site, env, i))
                    self.go(x, env, d + 1, idx)
                    bound = True
                if env.fn.islambda and env.parent is not None:
                    for x in local_defs(env.parent.fn).get(n.x[2], ()):
                        self.go(x, env.parent, d + 1, idx)
                        bound = True
                    if n.x[2] in env.parent.args:
                        a, e2 = env.parent.args[n.x[2]]
                        self.go(a, e2, d + 1, idx)
                        bound = True
                if not bound:
                    self.leaves.append(n)
            else:
                self.leaves.append(n)
        elif k == "this":
            if env.this is not None:
                a, e2 = env.this
                self.go(a, e2, d + 1, idx)
        elif k == "?:":
            self.go(n.c[1], env, d + 1, idx)
            self.go(n.c[2], env, d + 1, idx)
        elif k == "idx":
            self.go(n.c[0], env, d + 1, (n.c[1], env))
        elif k == "un":
            self.go(n.c[0], env, d + 1, idx)
        elif k == "bin":
            if n.x[0] in (",", "="):
                self.go(n.c[1], env, d + 1, idx)
            else:
                self.go(n.c[0], env, d + 1, idx)
                self.go(n.c[1], env, d + 1, idx)
        elif k in ("mcall", "ocall", "call"):
            f = prog.F.get(n.callee)
            ident = self.identity(f, n.cq)
            if ident is not None:
                for i in ident:
                    a = n.args() if k != "ocall" else n.c
                    if i < len(a):
                        self.go(a[i], env, d + 1, idx)
                return
            last = n.mname
            isidx = last in ("operator[]", "at") and len(n.c) > 1
            i2 = (n.c[1], env) if isidx else idx
            if f is not None and not f.defaulted:
                if f.ret == "void":
                    return
                if env.depth > self.maxdepth or f.key in env.chain() or len(f.nodes) > 260:
                    for a in n.c:
                        self.go(a, env, d + 1, idx)
                    return
                self.ret(f, n, env, d, i2)
            else:
                if k == "call":
                    for a in n.c:
                        self.go(a, env, d + 1, idx)
                else:
                    self.go(n.c[0], env, d + 1, i2)
        elif k in ("ctor", "new", "ilist"):
            for a in n.c:
                self.go(a, env, d + 1, idx)
        elif k in ("int", "bool", "nullptr", "str", "float"):
            self.leaves.append(n)


# ------------------------------------------------------------------ linear index expressions
def linear(prog, n, env, depth=0):
    """dict {symbol: coefficient}, '' -> constant; parameters are followed to the caller"""
    n = strip(n)
    if depth > 30:
        return {"?%d" % n.id: 1}
    if n.k == "int":
        return {"": n.x[0]}
    if n.k == "ref":
        if n.x[0] == "p" and n.x[2] in env.args:
            a, e2 = env.args[n.x[2]]
            return linear(prog, a, e2, depth + 1)
        if n.x[0] in ("v", "s"):
            ds = local_defs(n.fn).get(n.x[2], ())
            # a single-definition constant local that is not a loop counter
            if len(ds) == 1 and not any(m.k == "un" and m.x[0] in ("++", "--", "p++", "p--") and strip(m.c[0]).k == "ref" and
                                        strip(m.c[0]).x[2:3] == n.x[2:3] for m in n.fn.nodes):
                return linear(prog, ds[0], env, depth + 1)
        return {"%s#%s@%s" % (n.x[1], n.x[2], n.fn.key): 1}
    if n.k == "bin" and n.x[0] in ("+", "-", "*"):
        a = linear(prog, n.c[0], env, depth + 1)
        b = linear(prog, n.c[1], env, depth + 1)
        if n.x[0] == "*":
            for u, v in ((a, b), (b, a)):
                if set(u) <= {""}:
                    c = u.get("", 0)
                    return {s: c * w for s, w in v.items() if c * w}
            return {canon(n): 1}
        s = 1 if n.x[0] == "+" else -1
        r = dict(a)
        for k2, v2 in b.items():
            r[k2] = r.get(k2, 0) + s * v2
        return {k2: v2 for k2, v2 in r.items() if v2}
    if n.is_call() and n.callee in prog.F:
        f = prog.F[n.callee]
        rets = [r for r in f.nodes if r.k == "return" and r.c]
        if len(rets) == 1 and len(f.nodes) < 30 and f.key not in env.chain():
            return linear(prog, rets[0].c[0], bind(prog, env, n, f), depth + 1)
    return {canon(n): 1}


def lineq(a, b):
    clean = lambda d: {k: v for k, v in d.items() if v}
    return clean(a) == clean(b)
