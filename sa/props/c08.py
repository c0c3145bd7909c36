"""C08: no division or remainder on model numbers runs with a zero divisor.

Every division/remainder of model numbers (IntVal, FloatVal, double, 64-bit integers) is a site. Its divisor must be known
to be non-zero on every path (sa/nonzero.py); a divisor that is a parameter passes the obligation to every call of the
function. In functions that return the quotient, the zero case must end in a throw. The checked integer operators
themselves must reject zero."""
from ..flow import strip, canon
from ..nonzero import NonZero, key, const, core
from .. import must

EXPLANATION = ("Every division and remainder whose operands are model numbers (IntVal, FloatVal, double, 64-bit integers) is enumerated from the "
               "typed syntax tree. A forward must-analysis over the CFG (tests against zero on the taken edge, copies, conditional replacement, products, "
               "range differences without zero, helper functions inlined as summaries) decides whether the divisor differs from zero on every path; a divisor that is a "
               "parameter is decided at every call site. Where the quotient is the function's result, the zero edge of the test must end in an exception. "
               "Divisors that are elements of containers filled elsewhere are counted as not decided, unless the container was compacted to non-zero elements.")

NUM = ("IntVal", "FloatVal", "double", "float", "long long", "long")
OPS = ("/", "%", "/=", "%=")


def num_type(t):
    return t.replace("const ", "").strip(" &").split("::")[-1] in NUM


def site_op(n):
    if n.k == "bin" and n.x[0] in OPS:
        return n.x[0]
    if n.k == "ocall" and n.mname in ("operator/", "operator%", "operator/=", "operator%=") and n.c:
        return n.mname[8:]
    if n.k == "call" and n.mname in ("fmod", "remainder", "div", "lldiv", "ldiv") and len(n.c) == 2:
        return n.mname
    return None


def element_of(fn, nz, n, depth=0):
    """the container expression n is an element of (directly or through single-definition copies), or None"""
    n = core(n)
    if n is None or depth > 5:
        return None
    if n.k == "mem" and n.c:
        return element_of(fn, nz, n.c[0], depth + 1)
    if n.k == "idx" or n.k == "ocall" and n.mname in ("operator[]", "operator*", "operator->") and len(n.c) in (1, 2):
        return strip(n.c[0])
    if n.k == "un" and n.x[0] == "*":
        return strip(n.c[0])
    if n.k == "mcall" and n.mname in ("at", "front", "back") and n.c:
        return strip(n.c[0])
    if n.k == "ref" and n.x[0] == "v":
        d = nz.defs.get(n.x[2], [])
        if len(d) == 1 and d[0] is not None:
            return element_of(fn, nz, d[0], depth + 1)
        v = [x for x in fn.walk() if x.k == "var" and x.x[1] == n.x[2]]
        if v and v[0].p is not None and any(a.k == "rfor" for a in ancestors(v[0], 3)):
            return n
    return None


def ancestors(n, k):
    while n is not None and k:
        n = n.p
        k -= 1
        if n is not None:
            yield n


def compacts(ctx, g, pi, cache):
    """does g leave only non-zero elements in its container parameter pi? (elements kept under a test, rest cut off)"""
    if g is None or g.cfg is None:
        return False
    ck = ("compact", g.key, pi)
    if ck in cache:
        return cache[ck]
    cache[ck] = False
    name = g.params[pi][0]
    nz = sub(ctx, g, cache)

    def is_param(n):
        n = strip(n)
        return n is not None and n.k == "ref" and n.x[0] == "p" and n.x[1] == name
    kept, cut = set(), set()
    for n in g.walk():
        if n.k == "bin" and n.x[0] == "=" or n.k == "ocall" and n.mname == "operator=":
            l = strip(n.c[0])
            if (l.k == "idx" or l.k == "ocall" and l.mname == "operator[]") and is_param(l.c[0]):
                if nz.value_nonzero(n.c[1], nz.facts(n)):
                    kept.add(canon(l.c[1]))
        if n.k == "mcall" and n.mname == "resize" and is_param(n.c[0]):
            cut.add(canon(n.c[1]))
        if n.k == "mcall" and n.mname == "erase" and is_param(n.c[0]):
            for c in n.walk():
                if c.k == "call" and c.mname in ("remove", "remove_if"):
                    cut.add("erase")
                    kept.add("erase")
    cache[ck] = bool(kept & cut)
    return cache[ck]


def sub(ctx, f, cache):
    k = (f.key, frozenset())
    if cache.get(k) is None:
        cache[k] = NonZero(ctx.prog, f, cache)
    return cache[k]


def throws_only(fn, start):
    """every path from block start ends in a throw (no return, no normal end)"""
    seen = set()
    work = [start]
    while work:
        b = work.pop()
        if b in seen or b < 0:
            continue
        seen.add(b)
        bl = fn.cfg[b]
        if bl.noret or any(not isinstance(e, list) and fn.nodes[e].k == "throw" for e in bl.elems):
            continue
        if any(not isinstance(e, list) and fn.nodes[e].k == "return" for e in bl.elems) or b == fn.exit:
            return False
        work += [s for s in bl.succs if s >= 0]
    return True


def check(ctx):
    p = ctx.prog
    cache = {}
    sites = []
    for f in p.F.values():
        if f.cfg is None or "thirdparty" in (f.file or ""):
            continue
        for n in f.walk():
            op = site_op(n)
            if op:
                sites.append((f, n, op, n.c[-1]))
    done = set()
    seen_sites = set()
    work = []
    for f, n, op, d in sites:
        if const(d) is not None:
            if const(d) == 0:
                ctx.bad("literal:%s:%s" % (f.q, n.line), f.loc(n), "division by the constant zero")
            continue
        x = core(d)
        if x is None or not num_type(x.type):
            continue
        work.append((f, n, op, d, ()))
    ctx.count("division sites on model numbers", len(set((f.file, n.line, op) for f, n, op, d, _ in work)))
    ctx.need("division sites on model numbers", 40)
    n_obl = 0
    while work:
        f, n, op, d, chain = work.pop()
        ident = (f.key, n.id, id(d))
        if ident in done or len(chain) > 5:
            continue
        done.add(ident)
        nz = sub(ctx, f, cache)
        n_obl += 1
        facts = nz.facts(n)
        x = core(d)
        k = key(d)
        tag = "%s:%s" % (f.q.split("(")[0], label(x))
        if const(d) is not None:
            if const(d) == 0:
                ctx.bad(tag, f.loc(n), "the divisor of the division in %s is the constant zero here" % where(chain, n))
            else:
                ctx.ok(tag)
            continue
        if nz.value_nonzero(d, facts):
            ctx.ok(tag)
            result_rule(ctx, f, nz, n, k, tag)
            continue
        # parameter: decide at the callers
        if x.k == "ref" and x.x[0] == "p" and not any(w == k for w in written(nz)):
            idx = [i for i, pr in enumerate(f.params) if pr[0] == x.x[1]]
            callers = p.callers.get(f.key, ())
            if idx and callers:
                cnt = 0
                for ck in callers:
                    g = p.F.get(ck)
                    if g is None or g.cfg is None:
                        continue
                    for c in g.walk():
                        if (c.is_call() or c.k == "ocall") and f.key in [t if isinstance(t, str) else t.key for t in p.targets(c)]:
                            m = nz.argmap(c, f)
                            a = m.get(nz.pkey(f, idx[0]))
                            if a is not None:
                                cnt += 1
                                work.append((g, c, op, a, chain + (f.loc(n),)))
                if cnt:
                    ctx.ok(tag)
                    continue
            elif not callers and idx:
                ctx.skip("%s at %s: no caller in the compiled sources" % (tag, f.loc(n)))
                continue
        el = element_of(f, nz, d)
        if el is not None:
            decided = False
            if el.k == "ref":
                ek = canon(el)
                for c in f.walk():
                    if c.k == "call" and not decided:
                        for i, a in enumerate(c.c):
                            if canon(a) == ek:
                                for t in p.targets(c):
                                    g = p.F.get(t) if isinstance(t, str) else t
                                    if g is not None and i < len(g.params) and compacts(ctx, g, i, cache):
                                        decided = True
            if decided:
                ctx.ok(tag)
            else:
                ctx.skip("%s at %s: the divisor is an element of a container" % (tag, f.loc(n)))
            continue
        ctx.bad(tag, f.loc(n), "the divisor `%s` of the division%s may be zero: no test against zero holds on every path to it"
                % (label(x), (" executed at %s" % chain[0]) if chain else ""))
    ctx.count("divisors decided", n_obl)


def written(nz):
    out = set()
    for n in nz.fn.walk():
        for w in nz._writes(n):
            out.add(key(w))
    return out


def where(chain, n):
    return chain[0] if chain else "line %s" % n.line


def label(x):
    import re
    return re.sub(r"#\d+", "", canon(x))[:60]


def result_rule(ctx, f, nz, n, k, tag):
    """the quotient is the result: the zero edge of the test has to throw"""
    r = f.ret.replace("const ", "").strip(" &").split("::")[-1]
    if r not in NUM:
        return
    if not any(a.k == "return" for a in ancestors(n, 4)):
        return
    for b, s in nz.zero_edges(k):
        ctx.check(throws_only(f, s), tag + ":zero", f.loc(n),
                  "the zero case of the divisor returns a value instead of raising an error", "zero case raises")
