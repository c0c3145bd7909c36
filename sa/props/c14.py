"""C14: options are read only inside the argument vector, their numbers completely, and the help documents what is accepted."""
import re

from ..facts import AnalysisError
from ..flow import strip, in_repo
from ..dbm import Sizes, D, Z
from .. import numconv
from . import c22

EXPLANATION = (
    "Argument positions: an interprocedural difference-bound analysis over the index variables and sizes of string vectors "
    "(context-sensitive summaries, reference fields of the option parser class, lambdas, argc as the size of argv) proves for "
    "every element access, front, back and pop_back in the option-parsing functions (functions taking an index by reference "
    "together with the argument vector, everything they call with that vector, and their callers) that the index is below the "
    "size; where the bound has to come from the caller it becomes a precondition that every call site must establish. Lower "
    "bounds are not checked. Numbers: every text-to-number conversion reachable from option parsing is tested for success and "
    "completeness before use (the rule of C22). Help: every option word that a printHelp function documents is compared with, or "
    "listed as a name, in the option parsing functions of the same component or the driver, and options documented with a value "
    "are parsed by code that consumes one, and conversely.")

SV = "std::vector<std::basic_string<char"


def isint(t):
    t = t.replace("const ", "").replace("&", "").strip()
    return t in ("int", "unsigned int", "long", "unsigned long", "size_t", "std::size_t", "long long", "unsigned long long",
                 "short")


def iscont(t):
    t = t.replace("const ", "").strip()
    if t in ("char **", "char *[]"):
        return True
    t = t.replace("&", "").replace("*", "").strip()
    return t.startswith(SV) and t.endswith(">") and "::" not in t[t.rindex(">"):]


def is_argv(f):
    i = [k for k, q in enumerate(f.params) if q[1] == "int &"]
    a = [k for k, q in enumerate(f.params) if iscont(q[1]) and q[1].endswith("&") and "const" not in q[1]]
    return bool(i and a)


class Pre(Sizes):
    """Sizes with preconditions: an access the callee cannot prove over its entry values is owed by its callers"""

    def __init__(self, *a):
        Sizes.__init__(self, *a)
        self.on_call = None

    def access(self, fn, n, st):
        if self.on_access is None:
            return
        if n.k == "idx" and self.iscont(n.c[0].type or ""):
            self.on_access(fn, n, st, self.term(fn, n.c[0], size=True), self.lin(fn, n.c[1]), "index")
            return
        Sizes.access(self, fn, n, st)

    def call(self, fn, st, n):
        if self.on_access is not None and self.on_call is not None and st is not None:
            lam = self._lambda(fn, n)
            ts = [lam] if lam is not None else self.targets(n)
            for f in ts:
                if f is not None:
                    self.on_call(fn, n, st, f)
        return Sizes.call(self, fn, st, n)


def accesses(f):
    for x in f.walk():
        if x.k in ("ocall", "mcall") and x.c and iscont(x.c[0].type or "") and \
                (x.mname in ("back", "front", "pop_back") or (x.k == "ocall" and x.mname == "operator[]")):
            yield x
        elif x.k == "idx" and iscont(x.c[0].type or ""):
            yield x



def callers(prog, f):
    return [prog.F[k] for k in prog.callers.get(f.key, ()) if k in prog.F]


def refclass(prog, cls):
    c = prog.C.get(cls)
    return c is not None and any(iscont(fl[1]) and "&" in fl[1] for fl in c["fields"])


def scope(prog):
    """functions that parse options: index and argument vector by reference, what they call with it, and their callers"""
    s = {f.key: f for f in prog.F.values() if in_repo(f) and f.body is not None and is_argv(f)}
    if not s:
        raise AnalysisError("no option parsing functions found")
    for f in list(s.values()):
        for c in callers(prog, f):
            if in_repo(c):
                s[c.key] = c
    for f in prog.F.values():
        if in_repo(f) and f.name == "main" and any(iscont(p[1]) for p in f.params):
            s[f.key] = f
    work = list(s.values())
    while work:
        f = work.pop()
        for n in f.walk():
            ts = []
            if n.k == "lambda":
                ts = [prog.F.get(n.x[0])]
            elif n.is_call() or n.k in ("ctor", "new"):
                ts = [g for g in prog.targets(n) if
                      any(iscont(p[1]) and ("const" not in p[1] or any(isint(q[1]) for q in g.params)) for p in g.params) or
                      (g.cls is not None and refclass(prog, g.cls))]
            for g in ts:
                if g is not None and g.key not in s and in_repo(g) and g.body is not None:
                    s[g.key] = g
                    work.append(g)
    for f in list(s.values()):
        if any(iscont(p[1]) for p in f.params):
            for c in callers(prog, f):
                if in_repo(c):
                    s[c.key] = c
    return list(s.values())


def entry_pre(pres):
    st = D()
    for (i, c, k) in pres:
        st.add(i, c, -1 - k)          # i + k < n(c)
    return st


def base_entry(f):
    """argc is the number of entries of argv"""
    st = D()
    if f.name == "main":
        a = [k for k, q in enumerate(f.params) if iscont(q[1])]
        i = [k for k, q in enumerate(f.params) if q[1] == "int"]
        if a and i:
            st.add(("v", ("p", i[0])), ("n", ("p", a[0])), 0)
            st.add(("n", ("p", a[0])), ("v", ("p", i[0])), 0)
            # the program name is always there
            st.add(Z, ("n", ("p", a[0])), -1)
    return st


def external(t):
    return t is not None and (t == Z or (isinstance(t[1], tuple) and t[1][0] in ("p", "f", "cap")))


def indices(ctx, fs):
    prog = ctx.prog
    pres = {}                          # function key -> {(index term, container term, offset): origin}
    bykey = {f.key: f for f in fs}
    for rnd in range(6):
        changed = False
        final = {}
        for f in fs:
            if f.cfg is None:
                continue
            res = []

            def acc(fn, n, st, c, l, what):
                if c is None or l is None:
                    res.append((n, what, None, c, l))
                    return
                w = st.get(l[0], c)
                res.append((n, what, w is not None and w + l[1] <= -1, c, l))

            def call(fn, n, st, g):
                for (i, c, k), org in pres.get(g.key, {}).items():
                    refs, vals = S.bindings(fn, n, g)
                    ct = refs.get(c)
                    if ct is None:
                        obj = None
                        if c[1][0] == "p":
                            args = n.args() if n.is_call() else n.c
                            if c[1][1] < len(args):
                                obj = S.sizeof(fn, args[c[1][1]]) if hasattr(S, "sizeof") else None
                        if obj is None:
                            res.append((n, "call:" + g.name, None, None, org))
                            continue
                        l = (Z, 0) if i == Z else (refs.get(i, None), 0) if i in refs else vals.get(i)
                        w = st.get(l[0], obj[0]) if l is not None and l[0] is not None else None
                        ok = w is not None and w + l[1] + k - obj[1] <= -1
                        res.append((n, "call:" + g.name, ok, None, org))
                        continue
                    l = (Z, 0) if i == Z else (refs[i], 0) if i in refs else vals.get(i)
                    if l is None or l[0] is None:
                        res.append((n, "call:" + g.name, None, None, org))
                        continue
                    w = st.get(l[0], ct)
                    res.append((n, "call:" + g.name, w is not None and w + l[1] + k <= -1, ct, (l[0], l[1] + k, org)))

            S = Pre(prog, isint, iscont, acc)
            S.on_call = call
            st = base_entry(f)
            for (i, c, k) in pres.get(f.key, {}):
                st.add(i, c, -1 - k)
            S.run(f, st, report=True)
            byn = {}
            for r in res:
                k = (r[0].id, r[1])
                o = byn.get(k)
                byn[k] = r if o is None or (o[2] is True and r[2] is not True) else o
            final[f.key] = list(byn.values())
            # what could be owed by the callers
            for n, what, ok, c, l in byn.values():
                if ok is True or c is None or l is None or not external(c) or not external(l[0]) or f.name == "main":
                    continue
                if f.islambda and not any(t[1][0] != "p" for t in (c,) if isinstance(t[1], tuple)):
                    pass
                key = (l[0], c, l[1])
                if key in pres.get(f.key, {}):
                    continue
                d = dict(pres.get(f.key, {}))
                if any(a == l[0] and b == c and k >= l[1] for (a, b, k) in d):
                    continue
                # an index that only exists after the function moved it cannot be promised by a caller
                if not callers(prog, f) or l[1] > 4:
                    continue
                d[key] = l[2] if len(l) > 2 else (f.loc(n), f.name, what)
                pres[f.key] = d
                changed = True
        if not changed:
            break
    for f in fs:
        for n, what, ok, c, l in final.get(f.key, ()):
            if what.startswith("call:"):
                ctx.count("preconditions at call sites")
                org = l[2] if isinstance(l, tuple) and len(l) > 2 and isinstance(l[2], tuple) else l
                o = "%s in %s" % (org[0], org[1]) if isinstance(org, tuple) and len(org) == 3 else "its arguments"
                ctx.check(ok is True, "argument-bound:%s:%s" % (f.name, what[5:]), f.loc(n),
                          "%s calls %s without having established that the argument read at %s exists" % (f.q, what[5:], o),
                          "%s call of %s: argument exists" % (f.loc(n), what[5:]))
            elif ok is not True and l is not None and l[0] == Z and c is not None and erased(S, f, c):
                ctx.skip("%s %s: constant position in a vector from which elements were erased" % (f.loc(n), f.q))
            else:
                ctx.count("element accesses")
                ctx.check(ok is True, "argument-bound:%s:%s" % (f.name, what), f.loc(n),
                          "%s: no path condition bounds the position below the number of arguments (%s)" % (f.q, what),
                          "%s %s %s" % (f.loc(n), f.name, what))
    ctx.need("element accesses", 60)


def erased(S, f, c):
    return any(n.k == "mcall" and n.mname == "erase" and n.c and S.term(f, n.c[0], size=True) == c for n in f.walk())


# ---------------------------------------------------------------- help against parser
OPT = re.compile(r"^(--?[A-Za-z][\w-]*|-(?=$|[ ,<]))")


def helptext(f):
    out = []
    for x in f.walk():
        if x.k == "str":
            out.append(str(x.x[0]))
        elif x.k == "ref" and any("endl" in str(y) for y in x.x[1:]):
            out.append("\n")
    return "".join(out)


def documented(t):
    """(option, takes a value or None) from the option lines of a help text"""
    for ln in t.split("\n"):
        if not re.match(r"\s*-", ln):
            continue
        head = re.split(r"(?<=\S)\s{2,}", ln.strip())[0]
        val = bool(re.search(r"<|\[|\"", head))
        alts = re.split(r"(?:,\s*|\s+)(?=-)|\s*\((?=-)|\),?\s*", head)
        for a in alts:
            a = a.strip()
            m = OPT.match(a)
            if not m:
                continue
            w = m.group(1)
            yield w, val, a[len(w):len(w) + 1], ln.strip()


def component(f):
    """the class a help or option function belongs to, without nested option structures and factories"""
    c = f.cls or ""
    m = re.match(r"^(?:\w+::)*MIPSolverFactory<(?:\w+::)*(\w+)>$", c)
    if m:
        return m.group(1)
    c = re.sub(r"::(FactoryOptions|Options|\w*[oO]pt\w*)$", "", c)
    return c.split("::")[-1]


def literals(prog, fs):
    """option word -> set of ('eq'|'get'|'use', takes a value)"""
    out = {}

    def put(w, how, val):
        out.setdefault(w, set()).add((how, val))

    seen = set()
    work = list(fs)
    while work:
        f = work.pop()
        if f.key in seen or f.body is None:
            continue
        seen.add(f.key)
        for n in f.walk():
            if n.k == "lambda" and n.x[0] in prog.F:
                work.append(prog.F[n.x[0]])
            if n.is_call():
                for g in prog.targets(n):
                    if in_repo(g) and (g.cls == f.cls or g.cls is None) and g.key not in seen and \
                            any(iscont(p[1]) or "string" in p[1] for p in g.params) and g.file == f.file:
                        work.append(g)
            if n.k != "str":
                continue
            s = str(n.x[0])
            if not s.startswith("-"):
                continue
            p, ch = n.p, n
            while p is not None and p.k in ("icast", "ctor", "temp", "bind", "mat", "cast", "paren", "("):
                ch, p = p, p.p
            if p is not None and p.is_call() and p.mname in ("get", "getOption") and "CLOParser" in (p.cq or ""):
                a = [strip(y) for y in p.args()]
                ptr = a[1] if len(a) > 1 else None
                while ptr is not None and ptr.k == "darg":
                    ptr = strip(ptr.c[0]) if ptr.c else None
                val = ptr is not None and ptr.k != "nullptr"
                for w in s.split():
                    put(w, "get", val)
            elif p is not None and (p.mname in ("operator==", "operator!=") or (p.k == "bin" and p.x[0] in ("==", "!="))):
                put(s, "eq", None)
            else:
                for w in s.split():
                    put(w, "use", None)
    return out


def help_check(ctx):
    prog = ctx.prog
    helps = [f for f in prog.F.values() if in_repo(f) and f.name == "printHelp" and f.body is not None]
    opts = [f for f in prog.F.values() if in_repo(f) and f.body is not None and
            (is_argv(f) or re.match(r"process\w*Options?$", f.name))]
    byc = {}
    for f in opts:
        byc.setdefault(component(f), []).append(f)
    front = {c for c in byc if c in ("MznSolver", "Flattener", "Solns2Out")}
    fl = literals(prog, [f for c in front for f in byc[c]])
    for h in helps:
        c = component(h)
        docs = list(documented(helptext(h)))
        if not docs:
            continue
        if c not in byc:
            ctx.skip("%s documents options but has no parser" % h.q)
            continue
        own = literals(prog, byc[c]) if c not in front else fl
        acc = set(own) | set(fl)
        for w, val, nxt, ln in docs:
            ctx.count("documented options")
            ok = w in acc
            if not ok and (nxt == "<" or re.match(r"-O\d?$", w)):
                ok = any(w.startswith(a) or a.startswith(w) for a in acc if len(a) >= 2)
            ctx.check(ok, "undocumented-parser:%s:%s" % (c, w), h.loc(h.body),
                      "%s documents the option '%s' (\"%s\"), which the option parser of %s does not accept" % (h.q, w, ln[:80], c),
                      "%s %s" % (c, w))
            hows = own.get(w) or fl.get(w) or set()
            gets = {v for how, v in hows if how == "get"}
            if ok and len(gets) == 1 and len(hows) == 1:
                v = next(iter(gets))
                ctx.count("value agreement")
                ctx.check(v == val or (v and not val and shared_value(docs, w)), "help-value:%s:%s" % (c, w), h.loc(h.body),
                          "%s documents '%s' as taking %s value, the parser reads %s" %
                          (h.q, w, "a" if val else "no", "one" if v else "none"), "%s %s value" % (c, w))
    ctx.need("documented options", 60)


def shared_value(docs, w):
    # a list of alternatives continued on the next line shares the value written at its end
    i = [k for k, d in enumerate(docs) if d[0] == w][0]
    return docs[i][3].rstrip().endswith(",")


def check(ctx):
    prog = ctx.prog
    fs = scope(prog)
    ctx.count("option parsing functions", len(fs))
    indices(ctx, fs)
    keys = {f.key for f in fs}
    # numbers
    reach = {k for k in keys}
    for kind, fn, n in numconv.sites(prog):
        near = fn.key in keys or any(c.key in keys for c in callers(prog, fn))
        if not near:
            continue
        cert, why = c22.certified(ctx, fn, n)
        ok, msg = numconv.analyse(prog, kind, fn, n, certified=cert)
        ctx.count("conversions of option values")
        if ok is None:
            ctx.skip("%s %s: %s" % (fn.loc(n), fn.q, msg))
        else:
            ctx.check(ok, "option-number:%s" % fn.name, fn.loc(n), "%s: %s" % (fn.q, msg), "%s %s" % (fn.loc(n), fn.name))
    ctx.need("conversions of option values", 2)
    help_check(ctx)
