"""Two-sided comparison analysis: which access paths of two objects (side 0, side 1) an expression reads, where they are
compared, and which fields are compared on every path to a non-false return."""
from .flow import strip, local_defs, bind, Env, canon
from .prov import all_fields

ACC = ("cast", "dynamicCast", "dyn_cast")


class PEnv(Env):
    """root environment of a two-argument comparison"""
    __slots__ = ("roots",)

    def __init__(self, fn):
        Env.__init__(self, fn)
        ps = [p[2] for p in fn.params]
        if len(ps) == 1 and fn.cls and not fn.static:
            self.roots = {"this": "@0", ps[0]: "@1"}
        else:
            self.roots = {ps[0]: "@0", ps[1]: "@1"}


def path(n, env, depth=0):
    """access path text with side markers @0/@1 (or '?' parts)"""
    n = strip(n)
    if depth > 20:
        return "?"
    k = n.k
    if k == "ref":
        kind = n.x[0]
        r = getattr(env, "roots", None)
        if kind == "p" and r and n.x[2] in r:
            return r[n.x[2]]
        if kind == "p" and n.x[2] in env.args:
            a, e2 = env.args[n.x[2]]
            return path(a, e2, depth + 1)
        if kind in ("v", "s", "p"):
            ds = local_defs(n.fn).get(n.x[2], ())
            if len(ds) == 1 and not _incremented(n.fn, n.x[2]):
                if kind != "p":
                    return path(ds[0], env, depth + 1)
            return "%s#%s" % (n.x[1], n.x[2])
        return canon(n)
    if k == "this":
        r = getattr(env, "roots", None)
        if r and "this" in r:
            return r["this"]
        if env.this is not None:
            a, e2 = env.this
            return path(a, e2, depth + 1)
        return "this"
    if k == "mem":
        return path(n.c[0], env, depth + 1) + "." + n.x[0]
    if k == "mcall":
        return "%s.%s(%s)" % (path(n.c[0], env, depth + 1), n.mname, ",".join(path(a, env, depth + 1) for a in n.c[1:]))
    if k == "call":
        if n.mname in ACC and len(n.c) == 1:
            return path(n.c[0], env, depth + 1)
        return "%s(%s)" % (n.mname, ",".join(path(a, env, depth + 1) for a in n.c))
    if k == "un" and n.x[0] in ("*", "&"):
        return path(n.c[0], env, depth + 1)
    if k in ("ocall", "ctor") and len(n.c) == 1 and (k == "ctor" or n.mname in ("operator*", "operator->")):
        return path(n.c[0], env, depth + 1)
    if not n.c:
        return canon(n)
    if k == "idx":
        return "[](%s)" % ",".join(path(a, env, depth + 1) for a in n.c)
    return "%s(%s)" % (n.x[0] if k in ("bin", "un") else n.mname if k == "ocall" else k,
                       ",".join(path(a, env, depth + 1) for a in n.c))


def _incremented(fn, vid):
    s = getattr(fn, "_incd", None)
    if s is None:
        s = set()
        for n in fn.nodes:
            if n.k == "un" and ("++" in n.x[0] or "--" in n.x[0]):
                t = strip(n.c[0])
                if t.k == "ref" and t.x[0] in ("v", "p"):
                    s.add(t.x[2])
            elif n.k == "bin" and n.x[0] in ("+=", "-=") or n.k == "ocall" and n.mname in ("operator++", "operator--", "operator+="):
                t = strip(n.c[0])
                if t.k == "ref" and t.x[0] in ("v", "p"):
                    s.add(t.x[2])
        fn._incd = s
    return vid in s


def side(p):
    a, b = "@0" in p, "@1" in p
    return None if a == b else (0 if a else 1)


def sig(p):
    return p.replace("@0", "@").replace("@1", "@")


class Site(object):
    __slots__ = ("node", "env", "a", "b", "op", "pa", "pb", "swap")

    def __repr__(self):
        return "<%s %s %s>" % (self.pa, self.op, self.pb)


def site_at(n, env):
    """comparison site at node n, if its two operands belong to different sides"""
    op, ops = None, None
    if n.k == "bin" and n.x[0] in ("==", "!=", "<", ">", "<=", ">=", "-"):
        op, ops = n.x[0], n.c
    elif n.k == "ocall" and n.mname in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=") and len(n.c) == 2:
        op, ops = n.mname[8:], n.c
    elif n.k == "call" and len(n.c) == 2:
        op, ops = n.mname, n.c
    elif n.k == "mcall" and len(n.c) == 2:
        op, ops = n.mname, n.c
    if ops is None:
        return None
    pa, pb = path(ops[0], env), path(ops[1], env)
    sa, sb = side(pa), side(pb)
    if sa is None or sb is None or sa == sb:
        return None
    s = Site()
    s.node, s.env, s.a, s.b, s.op, s.pa, s.pb = n, env, ops[0], ops[1], op, pa, pb
    s.swap = sa == 1
    return s


def side_fields(prog, n, env):
    return all_fields(prog, n, env)


def sites_in(fn, env):
    out = []
    for n in fn.nodes:
        s = site_at(n, env)
        if s is not None:
            out.append(s)
    return out


def is_false(n):
    n = strip(n)
    return n.k == "bool" and not n.x[0]


def is_true(n):
    n = strip(n)
    return n.k == "bool" and bool(n.x[0])
