"""Value provenance: which fields of which classes a value comes from.

outer_fields: the fields that directly hold the value (the last field of each access path, looking through
accessor functions, parameters, local variables, containers, smart pointers and value sub-objects).
all_fields: every field read on the access paths."""
from .flow import strip, local_defs, bind, Env

CONTAINER_PASS = {"operator[]", "at", "back", "front", "begin", "end", "cbegin", "cend", "rbegin", "rend", "operator*", "operator->",
                  "get", "find", "top", "data", "operator()", "value", "second", "first", "ptr", "count"}


def is_node_ptr(prog, t):
    t = t.replace("const ", "").strip()
    if not t.endswith("*"):
        return False
    b = t.rstrip("* ").strip()
    return b in prog.derived("MiniZinc::Expression") or b in prog.derived("MiniZinc::Item")


def _simple_accessor(f):
    return len(f.nodes) < 260


def outer_fields(prog, node, env, maxdepth=10):
    out = set()
    seen = set()

    def ret(f, call, env, d):
        if env.depth > maxdepth or f.key in env.chain() or not _simple_accessor(f):
            for a in call.args():
                go(a, env, d + 1)
            return
        e2 = bind(prog, env, call, f)
        for r in f.nodes:
            if r.k == "return" and r.c:
                go(r.c[0], e2, d + 1)

    def go(n, env, d):
        n = strip(n)
        key = (n.fn.key, n.id, env.uid)
        if key in seen or d > 90:
            return
        seen.add(key)
        k = n.k
        if k == "mem":
            base = n.c[0]
            out.add(n.x[1])
            if n.x[2] and is_node_ptr(prog, base.type or ""):
                return
            go(base, env, d + 1)
        elif k == "ref":
            kind = n.x[0]
            if kind in ("v", "s", "p"):
                if kind == "p" and n.x[2] in env.args:
                    a, e2 = env.args[n.x[2]]
                    go(a, e2, d + 1)
                for x in local_defs(n.fn).get(n.x[2], ()):
                    go(x, env, d + 1)
                # lambda captures: variables of the enclosing function
                if env.fn.islambda and env.parent is not None:
                    for x in local_defs(env.parent.fn).get(n.x[2], ()):
                        go(x, env.parent, d + 1)
                    if n.x[2] in env.parent.args:
                        a, e2 = env.parent.args[n.x[2]]
                        go(a, e2, d + 1)
        elif k == "this":
            if env.this is not None:
                a, e2 = env.this
                go(a, e2, d + 1)
        elif k == "?:":
            go(n.c[1], env, d + 1)
            go(n.c[2], env, d + 1)
        elif k == "idx":
            go(n.c[0], env, d + 1)
        elif k == "un":
            go(n.c[0], env, d + 1)
        elif k == "bin":
            if n.x[0] == ",":
                go(n.c[1], env, d + 1)
            elif n.x[0] in ("=",):
                go(n.c[1], env, d + 1)
            else:
                go(n.c[0], env, d + 1)
                go(n.c[1], env, d + 1)
        elif k in ("mcall", "ocall", "call"):
            f = prog.F.get(n.callee)
            last = n.mname
            if f is not None and not f.defaulted:
                if f.ret != "void":
                    ret(f, n, env, d)
            else:
                if k == "mcall":
                    go(n.c[0], env, d + 1)
                    if last in ("operator()",):
                        for a in n.c[1:]:
                            go(a, env, d + 1)
                elif k == "ocall":
                    go(n.c[0], env, d + 1)
                else:
                    for a in n.c:
                        go(a, env, d + 1)
        elif k == "ctor":
            for a in n.c:
                go(a, env, d + 1)
        elif k in ("new", "ilist"):
            for a in n.c:
                go(a, env, d + 1)

    go(node, env, 0)
    return out


def all_fields(prog, node, env, maxdepth=8, skipfn=None):
    """every field read while computing the expression (conditions); calls with skipfn(callee, qualified name) are opaque"""
    out = set()
    seen = set()

    def body(f, call, env, d):
        if env.depth > maxdepth or f.key in env.chain() or len(f.nodes) > 200:
            for a in call.c:
                go(a, env, d + 1)
            return
        e2 = bind(prog, env, call, f)
        for r in f.nodes:
            if r.k == "return" and r.c:
                go(r.c[0], e2, d + 1)
        for a in call.c:
            go(a, env, d + 1)

    def go(n, env, d):
        n = strip(n)
        key = (n.fn.key, n.id, env.uid)
        if key in seen or d > 90:
            return
        seen.add(key)
        k = n.k
        if k == "mem":
            out.add(n.x[1])
            go(n.c[0], env, d + 1)
        elif k == "ref":
            kind = n.x[0]
            if kind in ("v", "s", "p"):
                if kind == "p" and n.x[2] in env.args:
                    a, e2 = env.args[n.x[2]]
                    go(a, e2, d + 1)
                t = n.type or ""
                # loop counters and the like carry no field of interest; follow defs of the rest
                for x in local_defs(n.fn).get(n.x[2], ()):
                    go(x, env, d + 1)
            elif kind == "g":
                pass
        elif k == "this":
            if env.this is not None:
                a, e2 = env.this
                go(a, e2, d + 1)
        elif k in ("mcall", "ocall", "call"):
            f = prog.F.get(n.callee)
            if skipfn is not None and skipfn(f, n.cq):
                return
            if f is not None and not f.defaulted:
                body(f, n, env, d)
            else:
                for a in n.c:
                    go(a, env, d + 1)
        elif k == "lambda":
            return
        else:
            for a in n.c:
                go(a, env, d + 1)

    go(node, env, 0)
    return out
